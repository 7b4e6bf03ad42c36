// C19 a route is the alternation of connections and swath groups.
#include "gens.hpp"
using namespace pbt;
using namespace orc;
namespace {
typedef std::array<double, 3> P3;
P3 p3(const F2CPoint& p) { return {p.getX(), p.getY(), p.getZ()}; }
bool near(const P3& a, const P3& b) {
  for (size_t k = 0; k < 3; ++k) {
    if (!(std::fabs(a[k] - b[k]) <= 1e-12 * (1 + std::fabs(a[k])))) { return false; }
  }
  return true;
}
struct Sw { std::vector<P3> p; int id; double w; bool dir; };
typedef std::vector<P3> Conn;
struct Model {
  std::vector<Conn> c;
  std::vector<std::vector<Sw>> s;
  std::vector<P3> line() const {
    std::vector<P3> l;
    for (size_t i = 0; i < c.size() || i < s.size(); ++i) {
      if (i < c.size()) { l.insert(l.end(), c[i].begin(), c[i].end()); }
      if (i < s.size()) {
        for (auto&& x : s[i]) { l.insert(l.end(), x.p.begin(), x.p.end()); }
      }
    }
    return l;
  }
  // A new connection starts when every connection has its swaths.
  Conn& conn() {
    if (c.size() <= s.size()) { c.emplace_back(); }
    return c.back();
  }
  std::vector<Sw>& group() {
    if (c.empty()) { c.emplace_back(); }
    if (c.size() > s.size()) { s.emplace_back(); }
    return s.back();
  }
};
Sw sw(const F2CSwath& x) {
  Sw s{{}, x.getId(), x.getWidth(), x.getCreationDir()};
  for (size_t i = 0; i < x.numPoints(); ++i) { s.p.push_back(p3(x.getPoint((int)i))); }
  return s;
}
Conn conn(const F2CMultiPoint& m) {
  Conn c;
  for (size_t i = 0; i < m.size(); ++i) { c.push_back(p3(m.getGeometry(i))); }
  return c;
}
void same(const F2CRoute& r, const Model& m, const std::string& after) {
  CHECK_EQ(r.sizeConnections(), m.c.size(), "connections after ", after);
  CHECK_EQ(r.sizeVectorSwaths(), m.s.size(), "groups of swaths after ", after);
  CHECK_EQ(r.getConnections().size(), m.c.size(), "connections after ", after);
  CHECK_EQ(r.getVectorSwaths().size(), m.s.size(), "groups after ", after);
  F2CRoute& w = const_cast<F2CRoute&>(r);
  auto eqc = [&] (const F2CMultiPoint& a, size_t i) {
    CHECK_EQ(a.size(), m.c[i].size(), "points of connection ", i, " after ", after);
    for (size_t k = 0; k < a.size(); ++k) {
      CHECK(near(p3(a.getGeometry(k)), m.c[i][k]), " point ", k, " of connection ",
          i, " after ", after);
    }
  };
  auto eqs = [&] (const F2CSwaths& a, size_t i) {
    CHECK_EQ(a.size(), m.s[i].size(), "swaths of group ", i, " after ", after);
    for (size_t k = 0; k < a.size(); ++k) {
      const Sw x = sw(a[(int)k]);
      const Sw& y = m.s[i][k];
      bool ok = x.p.size() == y.p.size() && x.id == y.id && x.w == y.w && x.dir == y.dir;
      for (size_t q = 0; ok && q < x.p.size(); ++q) { ok = near(x.p[q], y.p[q]); }
      CHECK(ok, " swath ", k, " of group ", i, " after ", after);
    }
  };
  for (size_t i = 0; i < m.c.size(); ++i) {
    eqc(r.getConnection(i), i);
    eqc(w.getConnection(i), i);
    eqc(r.getConnections()[i], i);
  }
  for (size_t i = 0; i < m.s.size(); ++i) {
    eqs(r.getSwaths(i), i);
    eqs(w.getSwaths(i), i);
    eqs(r.getVectorSwaths()[i], i);
  }
  if (!m.c.empty()) {
    eqc(r.getLastConnection(), m.c.size() - 1);
    eqc(w.getLastConnection(), m.c.size() - 1);
  }
  if (!m.s.empty()) {
    eqs(r.getLastSwaths(), m.s.size() - 1);
    eqs(w.getLastSwaths(), m.s.size() - 1);
  }
  CHECK_EQ(r.isEmpty(), m.c.empty() && m.s.empty(), "isEmpty after ", after);
  const auto l = m.line();
  const F2CLineString rl = r.asLineString();
  CHECK_EQ(rl.size(), l.size(), "points of the line after ", after);
  double len = 0, k = 1;
  for (size_t i = 0; i < l.size(); ++i) {
    CHECK(near(p3(rl.getGeometry(i)), l[i]), " point ", i, " of the line after ", after);
    if (i) { len += std::hypot(l[i][0] - l[i - 1][0], l[i][1] - l[i - 1][1]); }
    k = std::max(k, std::fabs(l[i][0]) + std::fabs(l[i][1]));
  }
  CHECK_NEAR(r.length(), len, 1e-11 * k * (1 + (double)l.size()), "length after ", after);
  const P3 zero{0, 0, 0};
  const P3 a = p3(r.startPoint()), b = p3(r.endPoint());
  CHECK(near(a, l.empty() ? zero : l.front()), " startPoint after ", after, ": ",
      a[0], ",", a[1], " of ", l.size(), " points from ",
      l.empty() ? 0 : l[0][0], ",", l.empty() ? 0 : l[0][1]);
  CHECK(near(b, l.empty() ? zero : l.back()), " endPoint after ", after, ": ",
      b[0], ",", b[1], " of ", l.size(), " points up to ",
      l.empty() ? 0 : l.back()[0], ",", l.empty() ? 0 : l.back()[1]);
}
void history(Gen& g) {
  F2CRoute r;
  Model m;
  std::vector<std::pair<F2CRoute, Model>> old;
  std::string log;
  same(r, m, "construction");
  size_t adds = 0;
  for (size_t k = g.size(1, 12); k-- > 0;) {
    std::ostringstream o;
    switch (g.weighted({2, 2, 2, 1, 3, 2, 3, 2, 1, 1, 2, 1})) {
      case 0: {
        const F2CPoint p = gn::point(g);
        r.addConnection(p);
        m.conn().push_back(p3(p));
        o << "addConnection(point)";
        break;
      }
      case 1: {
        const F2CMultiPoint p = gn::multiPoint(g, 0, 3);
        r.addConnection(p);
        Conn& c = m.conn();
        for (auto&& q : conn(p)) { c.push_back(q); }
        o << "addConnection(" << p.size() << " points)";
        break;
      }
      case 2: {
        std::vector<F2CPoint> p;
        for (size_t q = g.size(0, 3); q-- > 0;) { p.push_back(gn::point(g)); }
        r.addConnection(p);
        Conn& c = m.conn();
        for (auto&& q : p) { c.push_back(p3(q)); }
        o << "addConnection(vector of " << p.size() << ")";
        break;
      }
      case 3: r.addConnection(); m.conn(); o << "addConnection()"; break;
      case 4: {
        const F2CSwath x = gn::swath(g);
        r.addSwath(x);
        m.group().push_back(sw(x));
        o << "addSwath";
        ++adds;
        break;
      }
      case 5: {
        const F2CSwaths x = gn::swaths(g, 0, 3);
        if (x.size() == 0 && g.boolean()) { r.addSwaths(); } else { r.addSwaths(x); }
        auto& q = m.group();
        for (auto&& y : x) { q.push_back(sw(y)); }
        o << "addSwaths(" << x.size() << ")";
        ++adds;
        break;
      }
      case 6: {
        const F2CMultiPoint p = gn::multiPoint(g, 0, 3);
        const F2CSwaths x = gn::swaths(g, 0, 3);
        if (p.size() == 0 && x.size() == 0 && g.boolean()) {
          r.addConnectedSwaths();
        } else {
          r.addConnectedSwaths(p, x);
        }
        Conn& c = m.conn();
        for (auto&& q : conn(p)) { c.push_back(q); }
        auto& q = m.group();
        for (auto&& y : x) { q.push_back(sw(y)); }
        o << "addConnectedSwaths(" << p.size() << ", " << x.size() << ")";
        ++adds;
        break;
      }
      case 7: {
        // along a graph that knows the end of the route and the swath
        const F2CSwath x = gn::swath(g);
        const auto l = m.line();
        f2c::types::Graph2D gr;
        const F2CPoint e = r.endPoint(), s = x.startPoint();
        const F2CPoint mid = gn::point(g);
        const bool both = g.boolean();
        if (r.isEmpty()) {
          gr.addEdge(mid, s);
        } else if (l.empty() || fx::v(e).x == fx::v(s).x) {
          continue;
        } else if (both) {
          gr.addEdge(e, mid, 3);
          gr.addEdge(mid, s, 4);
        } else {
          gr.addEdge(e, s, 9);
          gr.addEdge(mid, s, 4);
        }
        o << "addSwath along a graph";
        const bool first = r.isEmpty();
        r.addSwath(x, gr);
        if (!first) {
          Conn& c = m.conn();
          c.push_back(p3(e));
          if (both) { c.push_back(p3(mid)); }
          c.push_back(p3(s));
        }
        m.group().push_back(sw(x));
        ++adds;
        break;
      }
      case 8: {
        if (m.c.empty()) { continue; }
        const size_t i = g.below(m.c.size());
        const F2CMultiPoint p = gn::multiPoint(g, 0, 3);
        r.setConnection(i, p);
        m.c[i] = conn(p);
        o << "setConnection(" << i << ")";
        break;
      }
      case 9: {
        if (m.s.empty()) { continue; }
        const size_t i = g.below(m.s.size());
        const F2CSwaths x = gn::swaths(g, 0, 3);
        r.setSwaths(i, x);
        m.s[i].clear();
        for (auto&& y : x) { m.s[i].push_back(sw(y)); }
        o << "setSwaths(" << i << ")";
        break;
      }
      case 10: {
        if (m.s.empty() || m.c.empty()) { continue; }
        o << "change through references";
        const size_t i = g.below(m.s.size()), j = g.below(m.c.size());
        const F2CSwath x = gn::swath(g);
        const F2CPoint p = gn::point(g);
        const bool last = g.boolean();
        (last ? r.getLastSwaths() : r.getSwaths(i)).push_back(x);
        (last ? m.s.back() : m.s[i]).push_back(sw(x));
        (last ? r.getLastConnection() : r.getConnection(j)).addPoint(p);
        (last ? m.c.back() : m.c[j]).push_back(p3(p));
        break;
      }
      default:
        o << "clone";
        old.emplace_back(r.clone(), m);
    }
    log += o.str() + "; ";
    g.note(o.str());
    same(r, m, log);
    for (auto&& x : old) { same(x.first, x.second, "clone taken before " + log); }
  }
  bool empty = false;
  for (auto&& x : m.s) { empty = empty || x.empty(); }
  for (auto&& x : m.c) { empty = empty || x.empty(); }
  if (adds >= 2 && m.s.size() >= 2 && empty) { g.nontrivial(); }
}
}  // namespace
Property& pbt::theProperty() {
  static Property p{"C19",
    "histories of up to twelve additions, replacements and copies against lists "
    "of points; non-trivial: two groups of swaths or more and an empty part",
    {{"history", 20000, 250000, history}}};
  return p;
}
