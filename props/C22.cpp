// C22 graph paths and costs are the shortest at every moment.
#include <map>
#include <set>
#include "gens.hpp"
using namespace pbt;
using namespace orc;
namespace {
const int64_t kFar = 1LL << 30;   // smallest "infinite" used
struct Model {
  std::map<size_t, std::map<size_t, int64_t>> e;
  void add(size_t a, size_t b, int64_t c) { e[a][b] = c; e[b]; }
  void remove(size_t a, size_t b) { if (e.count(a)) { e[a].erase(b); } }
  bool has(size_t a, size_t b) const {
    return e.count(a) && e.at(a).count(b);
  }
  size_t edges() const {
    size_t n = 0;
    for (auto&& x : e) { n += x.second.size(); }
    return n;
  }
  // Costs from a by relaxation until nothing changes; absent: unreachable.
  std::map<size_t, int64_t> from(size_t a) const {
    std::map<size_t, int64_t> d{{a, 0}};
    for (bool more = true; more;) {
      more = false;
      for (auto&& x : e) {
        if (!d.count(x.first)) { continue; }
        for (auto&& y : x.second) {
          const int64_t c = d[x.first] + y.second;
          if (!d.count(y.first) || c < d[y.first]) { d[y.first] = c; more = true; }
        }
      }
    }
    return d;
  }
  void simple(size_t a, size_t b, std::vector<size_t>* cur,
      std::set<std::vector<size_t>>* out) const {
    cur->push_back(a);
    if (a == b) {
      out->insert(*cur);
    } else if (e.count(a)) {
      for (auto&& y : e.at(a)) {
        if (std::find(cur->begin(), cur->end(), y.first) == cur->end()) {
          simple(y.first, b, cur, out);
        }
      }
    }
    cur->pop_back();
  }
  std::string str() const {
    std::ostringstream o;
    for (auto&& x : e) {
      for (auto&& y : x.second) {
        o << " " << x.first << "->" << y.first << ":" << y.second;
      }
    }
    return o.str();
  }
};
void path(const Model& m, size_t a, size_t b, const std::map<size_t, int64_t>& d,
    const std::vector<size_t>& p, const std::string& what) {
  if (a == b || !d.count(b)) {
    CHECK(p.empty(), " ", what, " from ", a, " to ", b, " has ", p.size(),
        " nodes, expected none in", m.str());
    return;
  }
  CHECK(p.size() >= 2 && p[0] == a && p.back() == b, " ", what, " from ", a,
      " to ", b, " has ", p.size(), " nodes or wrong ends in", m.str());
  int64_t c = 0;
  for (size_t i = 1; i < p.size(); ++i) {
    CHECK(m.has(p[i - 1], p[i]), " ", what, " from ", a, " to ", b,
        " uses the missing edge ", p[i - 1], "->", p[i], " in", m.str());
    c += m.e.at(p[i - 1]).at(p[i]);
  }
  CHECK_EQ(c, d.at(b), "cost of ", what, " from ", a, " to ", b, " in", m.str());
}
void cost(const Model& m, size_t a, size_t b, const std::map<size_t, int64_t>& d,
    int64_t c, const std::string& what) {
  if (!d.count(b)) {
    CHECK(c >= kFar, " ", what, " from ", a, " to the unreachable ", b, " is ", c,
        " in", m.str());
  } else {
    CHECK_EQ(c, d.at(b), what, " from ", a, " to ", b, " in", m.str());
  }
}
// Asks some things, so that different results are cached.
template <class G> void ask(Gen& g, G& gr, const Model& m, size_t big) {
  f2c::types::Graph& base = gr;
  std::vector<size_t> nodes;
  for (auto&& x : m.e) { nodes.push_back(x.first); }
  CHECK_EQ(base.numNodes(), nodes.size(), "nodes in", m.str());
  CHECK_EQ(gr.numEdges(), m.edges(), "edges in", m.str());
  const auto es = gr.getEdges();
  for (auto&& x : es) {
    for (auto&& y : x.second) {
      CHECK(m.has(x.first, y.first) && m.e.at(x.first).at(y.first) == y.second,
          " unknown edge ", x.first, "->", y.first, ":", y.second, " in", m.str());
    }
  }
  for (size_t a : nodes) {
    auto to = gr.getEdgesFrom(a);
    std::sort(to.begin(), to.end());
    std::vector<size_t> want;
    for (auto&& y : m.e.at(a)) { want.push_back(y.first); }
    CHECK(to == want, " edges from ", a, " in", m.str());
    for (size_t b : nodes) {
      const int64_t c = gr.getCostFromEdge(a, b), c2 = gr.getCostFromEdge(a, b, 77777);
      if (m.has(a, b)) {
        CHECK(c == m.e.at(a).at(b) && c2 == c, " cost of edge ", a, "->", b, " in", m.str());
      } else {
        CHECK(c >= kFar && c2 == 77777, " cost of missing edge ", a, "->", b);
      }
    }
  }
  CHECK(gr.getEdgesFrom(big + 5).empty(), " edges from an unknown node");
  CHECK(gr.getCostFromEdge(big + 5, 0) >= kFar, " edge from an unknown node");
  for (size_t k = g.below(4); k-- > 0;) {
    switch (g.below(5)) {
      case 0: {
        auto c = gr.getCosts();
        for (size_t a : nodes) {
          const auto d = m.from(a);
          CHECK(a < c.size(), " row of costs of node ", a);
          for (size_t b : nodes) {
            CHECK(b < c[a].size(), " costs of node ", a, " to ", b);
            cost(m, a, b, d, c[a][b], "entry of getCosts");
          }
        }
        break;
      }
      case 1: {
        auto p = gr.getPaths();
        for (size_t a : nodes) {
          const auto d = m.from(a);
          CHECK(a < p.size(), " row of paths of node ", a);
          for (size_t b : nodes) {
            CHECK(b < p[a].size(), " paths of node ", a, " to ", b);
            path(m, a, b, d, p[a][b], "entry of getPaths");
          }
        }
        break;
      }
      case 2: {
        const bool inf = g.boolean();
        for (size_t a : nodes) {
          const auto d = m.from(a);
          for (size_t b : nodes) {
            cost(m, a, b, d, inf ? gr.shortestPathCost(a, b, (int64_t)1e12) :
                gr.shortestPathCost(a, b), "shortestPathCost");
          }
        }
        break;
      }
      case 3: {
        const bool inf = g.boolean();
        for (size_t a : nodes) {
          const auto d = m.from(a);
          for (size_t b : nodes) {
            path(m, a, b, d, inf ? gr.shortestPath(a, b, (int64_t)1e12) :
                gr.shortestPath(a, b), "shortestPath");
          }
        }
        break;
      }
      default: {
        if (nodes.empty()) { break; }
        if (m.edges() > 22) { break; }
        const size_t a = g.pick(nodes), b = g.pick(nodes);
        const auto all = gr.allPathsBetween(a, b);
        std::set<std::vector<size_t>> want, got(all.begin(), all.end());
        std::vector<size_t> cur;
        m.simple(a, b, &cur, &want);
        CHECK_EQ(all.size(), want.size(), "paths from ", a, " to ", b, " in", m.str());
        CHECK(got == want, " other paths from ", a, " to ", b, " in", m.str());
      }
    }
  }
  // unknown nodes are connected to nothing
  const size_t z = big + 1 + g.below(3);
  CHECK(gr.shortestPath(z, 0).empty(), " path from an unknown node");
  CHECK(gr.shortestPath(0, z).empty(), " path to an unknown node");
  CHECK(gr.shortestPathCost(z, 0) >= kFar && gr.shortestPathCost(0, z) >= kFar,
      " cost to an unknown node");
  CHECK(gr.allPathsBetween(z, 0).empty() && gr.allPathsBetween(0, z).empty(),
      " simple paths to an unknown node");
}
void indices(Gen& g) {
  f2c::types::Graph gr;
  Model m;
  const size_t n = g.size(1, 7);
  std::vector<size_t> id;
  const bool dense = g.boolean();
  for (size_t i = 0; i < n; ++i) { id.push_back(dense ? i : i * 3 + g.below(3)); }
  if (!dense) { g.label("sparse indices"); }
  const size_t big = id.back();
  std::string log;
  bool removed = false, detour = false;
  std::vector<std::pair<f2c::types::Graph, Model>> old;
  ask(g, gr, m, big);
  for (size_t k = g.size(1, 20); k-- > 0;) {
    std::ostringstream o;
    const size_t a = g.pick(id), b = g.pick(id);
    const int64_t c = g.chance(1, 5) ? (int64_t)g.below(100000) :
      g.chance(1, 12) ? (int64_t)g.below(150000000) : (int64_t)g.below(12);
    switch (g.weighted({5, 5, 2, 2, 1})) {
      case 0: gr.addDirectedEdge(a, b, c); m.add(a, b, c);
        o << "edge " << a << "->" << b << ":" << c; break;
      case 1: gr.addEdge(a, b, c); m.add(a, b, c); m.add(b, a, c);
        o << "edge " << a << "-" << b << ":" << c; break;
      case 2: gr.removeDirectedEdge(a, b);
        removed = removed || m.has(a, b);
        m.remove(a, b); o << "remove " << a << "->" << b; break;
      case 3: gr.removeEdge(a, b);
        removed = removed || m.has(a, b) || m.has(b, a);
        m.remove(a, b); m.remove(b, a); o << "remove " << a << "-" << b; break;
      default: old.emplace_back(gr, m); o << "copy";
    }
    g.note(o.str());
    ask(g, gr, m, big);
    if (m.has(a, b) && m.from(a)[b] < m.e[a][b]) { detour = true; }
  }
  for (auto&& x : old) { ask(g, x.first, x.second, big); }
  if (removed && detour) { g.nontrivial(); }
}
// Costs beyond 2^31, with an "infinite" above all of them.
void dear(Gen& g) {
  f2c::types::Graph gr;
  Model m;
  const int64_t inf = 1LL << 60;
  const size_t n = g.size(2, 7);
  for (size_t k = g.size(1, 16); k-- > 0;) {
    const size_t a = g.below(n), b = g.below(n);
    const int64_t c = (int64_t)(g.chance(1, 3) ? g.below(12) : g.below(1ULL << 45));
    gr.addDirectedEdge(a, b, c);
    m.add(a, b, c);
    g.note(a, "->", b, ":", c);
    if (g.chance(2, 3)) { continue; }
    const bool first = g.boolean();
    for (auto&& x : m.e) {
      const auto d = m.from(x.first);
      for (auto&& y : m.e) {
        if (first) { path(m, x.first, y.first, d, gr.shortestPath(x.first, y.first, inf), "shortestPath"); }
        cost(m, x.first, y.first, d, gr.shortestPathCost(x.first, y.first, inf), "shortestPathCost");
        path(m, x.first, y.first, d, gr.shortestPath(x.first, y.first, inf), "shortestPath");
        CHECK_EQ(gr.getCostFromEdge(x.first, y.first, inf),
            m.has(x.first, y.first) ? m.e[x.first][y.first] : inf, "getCostFromEdge");
        if (d.count(y.first) && d.at(y.first) > (1LL << 32) && m.has(x.first, y.first) &&
            d.at(y.first) < m.e[x.first][y.first]) {
          g.nontrivial();
        }
      }
    }
  }
}
// Graph over points: the same, by index, with distances as default costs.
void points(Gen& g) {
  F2CGraph2D gr;
  Model m;
  std::vector<F2CPoint> ps;
  const size_t n = g.size(1, 7);
  const double off = g.chance(1, 4) ? 5e5 : 0;
  for (size_t i = 0; i < n; ++i) {   // at least 1 apart in x
    ps.emplace_back((double)i * 3 + g.real(-1, 1) - 9 - off, g.real(-40, 40) - off,
        g.chance(1, 5) ? g.real(-5, 5) : 0);
  }
  std::vector<int> at(n, -1);   // index of the node, in order of appearance
  size_t count = 0;
  auto idx = [&] (size_t i) {
    if (at[i] < 0) { at[i] = (int)count++; }
    return (size_t)at[i];
  };
  bool removed = false, detour = false;
  for (size_t k = g.size(1, 14); k-- > 0;) {
    std::ostringstream o;
    const size_t i = g.below(n), j = g.below(n);
    const F2CPoint &p = ps[i], &q = ps[j];
    const int64_t c = (int64_t)g.below(20);
    switch (g.weighted({3, 3, 3, 3, 2, 2, 2, 2})) {
      case 0: gr.addDirectedEdge(p, q, c); m.add(idx(i), idx(j), c);
        o << "edge " << i << "->" << j << ":" << c; break;
      case 1: gr.addEdge(p, q, c); m.add(idx(i), idx(j), c); m.add(idx(j), idx(i), c);
        o << "edge " << i << "-" << j << ":" << c; break;
      case 2: case 3: {
        const bool both = g.boolean();
        if (both) { gr.addEdge(p, q); } else { gr.addDirectedEdge(p, q); }
        const size_t a = idx(i), b = idx(j);
        const int64_t d = gr.getCostFromEdge(a, b);
        CHECK_NEAR((double)d, 1000 * dist(fx::v(p), fx::v(q)), 1.001,
            "default cost (in thousandths)");
        m.add(a, b, d);
        if (both) { m.add(b, a, d); }
        o << "edge " << i << (both ? "-" : "->") << j;
        break;
      }
      case 4: case 5: {   // cost of the shortest way in another graph
        F2CGraph2D w;
        Model mw;
        const F2CPoint mid(1e3, 2e3);
        const int64_t c1 = (int64_t)g.below(30), c2 = (int64_t)g.below(30),
          c3 = (int64_t)g.below(90);
        const bool both = g.boolean();
        w.addEdge(p, mid, c1);
        w.addEdge(mid, q, c2);
        w.addDirectedEdge(p, q, c3);
        if (g.boolean()) { gr.addEdge(p, q, w); } else {
          gr.addDirectedEdge(p, q, w);
          if (both) { gr.addDirectedEdge(q, p, w); }
        }
        const size_t a = idx(i), b = idx(j);
        const int64_t d = i == j ? 0 : std::min(c1 + c2, c3);
        CHECK_EQ(gr.getCostFromEdge(a, b), d, "cost from another graph");
        m.add(a, b, d);
        const int64_t back = gr.getCostFromEdge(b, a);
        if (i != j && back < kFar && !(m.has(b, a) && m.e[b][a] == back)) {
          CHECK_EQ(back, c1 + c2, "cost back from another graph");
          m.add(b, a, back);
        }
        o << "edge " << i << "-" << j << " by another graph";
        break;
      }
      case 6: case 7: {
        if (at[i] < 0 || at[j] < 0) {
          CHECK_THROWS(gr.nodeToIndex(at[i] < 0 ? p : q), "index of an unknown point");
          continue;
        }
        const size_t a = idx(i), b = idx(j);
        removed = removed || m.has(a, b);
        if (g.boolean()) {
          gr.removeDirectedEdge(p, q);
        } else {
          gr.removeEdge(p, q);
          m.remove(b, a);
        }
        m.remove(a, b);
        o << "remove " << i << "-" << j;
        break;
      }
    }
    g.note(o.str());
    CHECK_EQ(gr.numNodes(), count, "points of the graph");
    auto nodes = gr.getNodes();
    CHECK_EQ(nodes.size(), count, "getNodes");
    for (size_t x = 0; x < n; ++x) {
      if (at[x] < 0) {
        CHECK_THROWS(gr.nodeToIndex(ps[x]), "index of an unknown point");
        continue;
      }
      const F2CPoint& r = ps[x];
      CHECK_EQ(gr.nodeToIndex(r), (size_t)at[x], "index of a point");
      const F2CPoint back = gr.indexToNode((size_t)at[x]);
      CHECK(back.getX() == r.getX() && back.getY() == r.getY() &&
          back.getZ() == r.getZ(), " point of an index");
      size_t seen = 0;
      for (auto&& y : nodes) { if (y == r) { ++seen; } }
      CHECK_EQ(seen, 1u, "point in getNodes");
    }
    CHECK_THROWS(gr.indexToNode(count), "point of an unknown index");
    ask(g, gr, m, count);
    if (m.has(idx(i), idx(j)) && m.from(at[i])[at[j]] < m.e[at[i]][at[j]]) { detour = true; }
    // between points
    auto toIdx = [&] (const std::vector<F2CPoint>& v) {
      std::vector<size_t> r;
      for (auto&& y : v) { r.push_back(gr.nodeToIndex(y)); }
      return r;
    };
    for (size_t x = 0; x < n; ++x) {
      if (at[x] < 0) { continue; }
      const auto d = m.from(at[x]);
      for (size_t y = 0; y < n; ++y) {
        if (at[y] < 0) { continue; }
        path(m, at[x], at[y], d, toIdx(gr.shortestPath(ps[x], ps[y])), "path of points");
        cost(m, at[x], at[y], d, gr.shortestPathCost(ps[x], ps[y]), "cost between points");
      }
    }
    if (m.edges() <= 22) {
      const auto all = gr.allPathsBetween(p, q);
      std::set<std::vector<size_t>> want, got;
      for (auto&& v : all) { got.insert(toIdx(v)); }
      std::vector<size_t> cur;
      m.simple(at[i], at[j], &cur, &want);
      CHECK(got == want && all.size() == want.size(), " all paths between points");
    }
  }
  if (removed && detour) { g.nontrivial(); }
}
}  // namespace
Property& pbt::theProperty() {
  static Property p{"C22",
    "histories of up to twenty changes of a graph of up to seven nodes, with "
    "questions in between; non-trivial: an edge was removed and a direct edge "
    "was dearer than a detour (in dear: costs above 2^32)",
    {{"indices", 12000, 150000, indices}, {"dear", 3000, 40000, dear}, {"points", 5000, 60000, points}}};
  return p;
}
