// C18 swath lists behave like the lists they hold.
#include "gens.hpp"
#include "lines.hpp"
using namespace pbt;
using namespace orc;
using f2c::types::SwathType;
namespace {
// A swath as a plain value.
struct Val {
  std::vector<std::array<double, 3>> p;
  double w = 0;
  int id = 0;
  bool dir = true;
  SwathType type = SwathType::MAINLAND;
  void reverse() { std::reverse(p.begin(), p.end()); dir = !dir; }
  // (copies go through text of 15 digits)
  bool operator==(const Val& o) const {
    if (p.size() != o.p.size()) { return false; }
    for (size_t i = 0; i < p.size(); ++i) {
      for (size_t k = 0; k < 3; ++k) {
        if (!(std::fabs(p[i][k] - o.p[i][k]) <=
            1e-12 * (1 + std::fabs(p[i][k])))) { return false; }
      }
    }
    return w == o.w && id == o.id && dir == o.dir && type == o.type;
  }
};
Val val(const F2CSwath& s) {
  Val v;
  const F2CLineString path = s.getPath();
  const auto* l = path.get();
  for (int i = 0; i < l->getNumPoints(); ++i) {
    v.p.push_back({l->getX(i), l->getY(i), l->getZ(i)});
  }
  v.w = s.getWidth();
  v.id = s.getId();
  v.dir = s.getCreationDir();
  v.type = s.getType();
  return v;
}
std::string str(const Val& v) {
  std::ostringstream o;
  o << "(id " << v.id << " w " << v.w << " dir " << v.dir;
  for (auto&& p : v.p) { o << " " << p[0] << "," << p[1]; }
  o << ")";
  return o.str();
}
typedef std::vector<Val> List;
void same(const F2CSwaths& s, const List& m, const std::string& after) {
  CHECK_EQ(s.size(), m.size(), "size after ", after);
  size_t i = 0;
  F2CSwaths& ms = const_cast<F2CSwaths&>(s);
  for (auto&& x : s) {
    CHECK(val(x) == m[i], " element ", i, " after ", after, " is ", str(val(x)),
        ", expected ", str(m[i]));
    CHECK(&x == &s[(int)i] && &x == &s.at(i) && &x == &ms[(int)i] &&
        &x == &ms.at(i), " element ", i, " by index after ", after);
    ++i;
  }
  CHECK_EQ((size_t)std::distance(ms.begin(), ms.end()), m.size(), "iteration");
  if (!m.empty()) {
    CHECK(&s.back() == &s.at(m.size() - 1) && &ms.back() == &s.back(),
        " back() after ", after);
  }
  const size_t out = m.size() + (m.size() % 3);
  CHECK_THROWS(s.at(out), "access past the end of ", m.size(), " swaths");
  CHECK_THROWS(ms.at(out), "access past the end of ", m.size(), " swaths");
  CHECK_THROWS(s.at((size_t)-1), "access before the begin");
}
// The order asked for by sort(): oriented from the smaller end, by id.
void checkSorted(const F2CSwaths& s, const List& before) {
  CHECK_EQ(s.size(), before.size(), "size after sort");
  List want = before;
  for (auto&& v : want) {
    if (v.p.empty()) { continue; }
    const auto &a = v.p.front(), &b = v.p.back();
    if (b[0] < a[0] || (b[0] == a[0] && b[1] < a[1])) { v.reverse(); }
  }
  for (size_t i = 0; i < s.size(); ++i) {
    const Val v = val(s[(int)i]);
    if (i > 0) {
      CHECK(s[(int)i - 1].getId() <= v.id, " sorted list: id ", v.id, " after ",
          s[(int)i - 1].getId());
    }
    auto it = std::find(want.begin(), want.end(), v);
    CHECK(it != want.end(), " sorted list holds ", str(v),
        " which the list did not hold (as often)");
    want.erase(it);
  }
}
void history(Gen& g) {
  F2CSwaths s;
  List m;
  std::string ctor = "construction";
  switch (g.weighted({4, 1, 1, 1})) {
    case 0: break;
    case 1: {
      const int n = (int)g.below(4);
      s = F2CSwaths(n);
      m.resize((size_t)n);
      break;
    }
    case 2: {
      const F2CSwath a = gn::swath(g), b = gn::swath(g);
      s = F2CSwaths({a, b});
      m = {val(a), val(b)};
      break;
    }
    default: {
      std::vector<F2CSwath> v;
      for (size_t k = g.size(0, 3); k-- > 0;) { v.push_back(gn::swath(g)); }
      s = F2CSwaths(v);
      for (auto&& x : v) { m.push_back(val(x)); }
    }
  }
  same(s, m, ctor);
  size_t changed = 0;
  std::string log;
  for (size_t k = g.size(1, 12); k-- > 0;) {
    std::ostringstream o;
    switch (g.weighted({3, 2, 2, 2, 2, 1, 2, 2, 3, 2, 2, 1})) {
      case 0: {
        const F2CSwath x = gn::swath(g);
        m.push_back(val(x));
        if (g.boolean()) { s.push_back(x); } else { s.emplace_back(x); }
        o << "push_back";
        break;
      }
      case 1: {
        const F2CLineString l = gn::lineString(g, 2, 3);
        F2CSwath x(l, g.real(0.1, 9), (int)g.integer(0, 9),
            g.boolean() ? SwathType::HEADLAND : SwathType::MAINLAND);
        s.emplace_back(l, x.getWidth(), x.getId(), x.getType());
        m.push_back(val(x));
        o << "emplace_back(line)";
        break;
      }
      case 2: {
        const F2CLineString l = gn::lineString(g, 2, 3);
        F2CSwath x(l, g.real(0.1, 9), (int)m.size(),
            g.boolean() ? SwathType::HEADLAND : SwathType::MAINLAND);
        s.append(l, x.getWidth(), x.getType());
        m.push_back(val(x));
        o << "append(line)";
        break;
      }
      case 3: {
        F2CMultiLineString ls;
        const double w = g.real(0.1, 9);
        const SwathType t = g.boolean() ? SwathType::HEADLAND : SwathType::MAINLAND;
        const size_t n = g.size(0, 3);
        for (size_t i = 0; i < n; ++i) {
          const F2CLineString l = gn::lineString(g, 2, 3);
          ls.addGeometry(l);
          m.push_back(val(F2CSwath(l, w, (int)m.size(), t)));
        }
        s.append(ls, w, t);
        o << "append(" << n << " lines)";
        break;
      }
      case 4: {
        const F2CSwaths x = gn::swaths(g, 0, 3);
        s.append(x);
        for (auto&& y : x) { m.push_back(val(y)); }
        o << "append(" << x.size() << " swaths)";
        break;
      }
      case 5: {
        if (m.size() > 12) { continue; }
        o << "append itself (" << m.size() << ")";
        s.append(s);
        const List c = m;
        m.insert(m.end(), c.begin(), c.end());
        same(s, m, o.str());
        s = s.clone();   // paths of their own again
        break;
      }
      case 6: {
        o << "sort";
        s.sort();
        checkSorted(s, m);
        m.clear();
        for (auto&& x : s) { m.push_back(val(x)); }
        ++changed;
        break;
      }
      case 7: s.reverse(); std::reverse(m.begin(), m.end()); o << "reverse"; ++changed; break;
      case 8: {
        o << "reverseDirOddSwaths";
        s.reverseDirOddSwaths();
        for (size_t i = 1; i < m.size(); ++i) {
          if (m[i].dir == m[i - 1].dir) { m[i].reverse(); }
        }
        ++changed;
        break;
      }
      case 9: {
        o << "moveTo";
        const F2CPoint p = gn::point(g);
        s.moveTo(p);
        for (auto&& v : m) {
          for (auto&& q : v.p) { q[0] += p.getX(); q[1] += p.getY(); q[2] += p.getZ(); }
        }
        break;
      }
      case 10: {
        o << "clone";
        F2CSwaths c = s.clone();
        same(c, m, "clone");
        c.reverse();
        for (auto&& x : c) { x.reverse(); x.setId(-8); }
        break;
      }
      default: {
        if (m.empty()) { continue; }
        const size_t i = g.below(m.size());
        o << "element " << i << " reversed";
        for (auto* x : {&s[(int)i], &s.at(i)}) { x->reverse(); }
        s.at(i).setId(31);
        s[(int)i].setWidth(2.5);
        m[i].id = 31;
        m[i].w = 2.5;
      }
    }
    log += o.str() + "; ";
    g.note(o.str());
    same(s, m, log);
    m.clear();   // without the rounding of copies
    for (auto&& x : s) { m.push_back(val(x)); }
  }
  if (changed >= 2 && m.size() >= 3) { g.nontrivial(); }
}
// Lines clipped to a region are appended as its chords, in order.
void clipped(Gen& g) {
  Multi m;
  const size_t n = g.size(1, 3);
  for (size_t i = 0; i < n; ++i) {   // rectangles and convex cells apart
    const V c((double)i * 40, g.uniform(-8, 8));
    if (g.boolean()) {
      m.push_back(Poly{rectRing(c.x - g.uniform(3, 15), c.y - g.uniform(3, 15),
          g.uniform(4, 16), g.uniform(4, 16)), {}});
    } else {
      m.push_back(Poly{convexRing(g, c, g.uniform(4, 15), g.uniform(4, 15),
          4 + g.below(6)), {}});
    }
  }
  const F2CCells c = fx::cells(m);
  m = fx::multi(c);
  F2CSwaths s = gn::swaths(g, 0, 2);
  List before;
  for (auto&& x : s) { before.push_back(val(x)); }
  const double w = g.real(0.1, 9);
  const SwathType t = g.boolean() ? SwathType::HEADLAND : SwathType::MAINLAND;
  const bool many = g.boolean(), whole = m.size() > 1 || g.boolean();
  std::vector<std::vector<V>> ls;
  F2CMultiLineString ml;
  F2CLineString one;
  const Box b = box(m);
  for (size_t k = many ? g.size(0, 4) : 1; k-- > 0;) {
    // spread apart, so that pieces belong to one line only
    const double y = b.y0 + (b.y1 - b.y0) * g.uniform(-0.1, 1.1);
    const V p(b.x0 - 2 + g.uniform(0, 6), y), q(b.x1 + 2, y + g.uniform(-4, 4));
    ls.push_back(g.boolean() ? std::vector<V>{p, q} : std::vector<V>{q, p});
    F2CLineString l;
    for (auto&& v : ls.back()) { l.addPoint(v.x, v.y); }
    ml.addGeometry(l);
    one = l;
  }
  g.note("clip ", ls.size(), " lines to ", str(m));
  const F2CMultiLineString want = many ?
    (whole ? c.getLinesInside(ml) : c.getGeometry(0).getLinesInside(ml)) :
    (whole ? c.getLinesInside(one) : c.getGeometry(0).getLinesInside(one));
  if (many) {
    if (whole) { s.append(ml, c, w, t); } else { s.append(ml, c.getGeometry(0), w, t); }
  } else {
    if (whole) { s.append(one, c, w, t); } else { s.append(one, c.getGeometry(0), w, t); }
  }
  const auto lines = ln::raw(want);
  CHECK_EQ(s.size(), before.size() + lines.size(), "size after clipping");
  std::vector<std::vector<V>> got;
  for (size_t i = 0; i < s.size(); ++i) {
    const Val v = val(s[(int)i]);
    if (i < before.size()) {
      CHECK(v == before[i], " earlier swath ", i, " changed");
      continue;
    }
    CHECK_EQ(v.id, (int)i, "id of an appended swath");
    CHECK_EQ(v.w, w, "width of an appended swath");
    CHECK(v.type == t && v.dir, " type or direction of an appended swath");
    got.push_back(fx::line(s[(int)i].getPath()));
    CHECK(got.back().size() == lines[i - before.size()].size(), " points");
    for (size_t q = 0; q < got.back().size(); ++q) {
      CHECK(dist(got.back()[q], lines[i - before.size()][q]) < 1e-9, " piece ",
          i - before.size(), " differs from the clipped line");
    }
  }
  // each chord once
  double in = 0;
  bool tiny = false;
  size_t runs = 0;
  for (auto&& l : ls) {
    const auto ps = ln::pieces(l[0], l[1], m, ln::eps(m));
    for (auto&& p : ps) {
      const double d = (p.s1 - p.s0) * dist(l[0], l[1]);
      if (d < 1e-3 || p.where == 0) { tiny = true; }
      if (p.where > 0) { in += d; ++runs; }
    }
  }
  double total = 0;
  for (auto&& l : got) { total += fx::lineLength(l); }
  bool crossing = false;   // lines that cross are also cut there
  for (size_t i = 0; i < ls.size(); ++i) {
    for (size_t j = 0; j < i; ++j) {
      if (segSeg(ls[i][0], ls[i][1], ls[j][0], ls[j][1]) < 1e-6) { crossing = true; }
    }
  }
  if (!tiny && crossing) { CHECK(got.size() >= runs, " a chord is missing"); }
  if (!tiny && !crossing) {
    CHECK_EQ(got.size(), runs, "number of chords");
  }
  if (!tiny) { CHECK_NEAR(total, in, 1e-6 * (1 + in), "length of the chords"); }
  if (runs > 1) { g.nontrivial(); }
}
// Lists of lists, one per cell.
typedef std::vector<List> Lists;
void same(const F2CSwathsByCells& s, const Lists& m, const std::string& after) {
  CHECK_EQ(s.size(), m.size(), "groups after ", after);
  F2CSwathsByCells& ms = const_cast<F2CSwathsByCells&>(s);
  List flat;
  size_t i = 0;
  for (auto&& x : s) {
    same(x, m[i], after);
    CHECK(&x == &s[(int)i] && &x == &s.at(i) && &x == &ms[(int)i] &&
        &x == &ms.at(i), " group ", i, " by index after ", after);
    flat.insert(flat.end(), m[i].begin(), m[i].end());
    ++i;
  }
  CHECK_EQ((size_t)std::distance(ms.begin(), ms.end()), m.size(), "iteration");
  if (!m.empty()) {
    CHECK(&s.back() == &s.at(m.size() - 1) && &ms.back() == &s.back(), " back()");
  }
  CHECK_THROWS(s.at(m.size()), "access past the groups");
  CHECK_THROWS(ms.at(m.size()), "access past the groups");
  CHECK_EQ(s.sizeTotal(), flat.size(), "sizeTotal after ", after);
  same(s.flatten(), flat, "flatten after " + after);
  for (size_t k = 0; k < flat.size(); ++k) {
    CHECK(val(s.getSwath(k)) == flat[k] && val(ms.getSwath(k)) == flat[k],
        " getSwath(", k, ") after ", after);
  }
  for (size_t k : {flat.size(), flat.size() + 1, flat.size() + 7}) {
    CHECK_THROWS(s.getSwath(k), "getSwath past the end");
    CHECK_THROWS(ms.getSwath(k), "getSwath past the end");
  }
}
void groups(Gen& g) {
  F2CSwathsByCells s;
  Lists m;
  auto take = [&] (const F2CSwaths& x) {
    List l;
    for (auto&& y : x) { l.push_back(val(y)); }
    return l;
  };
  switch (g.weighted({4, 1, 1})) {
    case 0: break;
    case 1: {
      const int n = (int)g.below(4);
      s = F2CSwathsByCells(n);
      m.resize((size_t)n);
      break;
    }
    default: {
      std::vector<F2CSwaths> v;
      for (size_t k = g.size(0, 3); k-- > 0;) { v.push_back(gn::swaths(g, 0, 3)); }
      s = F2CSwathsByCells(v);
      for (auto&& x : v) { m.push_back(take(x)); }
    }
  }
  same(s, m, "construction");
  for (size_t k = g.size(1, 8); k-- > 0;) {
    std::ostringstream o;
    switch (g.weighted({4, 2, 2, 2, 1, 2})) {
      case 0: {
        const F2CSwaths x = gn::swaths(g, 0, 3);
        if (g.boolean()) { s.push_back(x); } else { s.emplace_back(x); }
        m.push_back(take(x));
        o << "push_back of " << x.size();
        break;
      }
      case 1: s.reverse(); std::reverse(m.begin(), m.end()); o << "reverse"; break;
      case 2: {
        if (m.empty()) { continue; }
        const size_t i = g.below(m.size());
        o << "swath added to group " << i;
        const F2CSwath x = gn::swath(g);
        (g.boolean() ? s[(int)i] : s.at(i)).push_back(x);
        m[i].push_back(val(x));
        break;
      }
      case 3: {
        size_t total = 0;
        for (auto&& l : m) { total += l.size(); }
        if (total == 0) { continue; }
        size_t i = g.below(total);
        o << "swath " << i << " reversed";
        s.getSwath(i).reverse();
        s.getSwath(i).setId(55);
        for (auto&& l : m) {
          if (i < l.size()) { l[i].reverse(); l[i].id = 55; break; }
          i -= l.size();
        }
        break;
      }
      case 4: {
        o << "clone";
        F2CSwathsByCells c = s.clone();
        same(c, m, "clone");
        for (auto&& x : c) { for (auto&& y : x) { y.reverse(); y.setId(-8); } x.reverse(); }
        break;
      }
      default: {
        F2CSwaths f = s.flatten().clone();
        o << "flat list as a group of its own";
        s.push_back(f);
        m.push_back(take(f));
      }
    }
    g.note(o.str());
    same(s, m, o.str());
    m.clear();
    for (auto&& x : s) { m.push_back(take(x)); }
  }
  size_t full = 0;
  bool empty = false;
  for (auto&& l : m) { if (l.empty()) { empty = true; } else { ++full; } }
  if (full > 1 && empty) { g.nontrivial(); }
}
}  // namespace
Property& pbt::theProperty() {
  static Property p{"C18",
    "histories of list operations against a plain list; non-trivial: at least "
    "three swaths and two reorderings; clips of several chords; lists with "
    "empty and several filled groups",
    {{"history", 15000, 200000, history}, {"clipped", 5000, 60000, clipped},
     {"groups", 10000, 150000, groups}}};
  return p;
}
