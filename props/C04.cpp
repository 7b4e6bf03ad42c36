// C04 clones are equal to, and independent of, their originals.
#include "gens.hpp"
using namespace pbt;
using namespace gn;
namespace {

// Any visible modification; each returns a description.
void changePt(Gen& g, F2CPoint& p) {
  switch (g.below(3)) {
    case 0: p.setX(p.getX() + 7); break;
    case 1: p *= 2; p.setY(p.getY() - 3); break;
    default: p.setPoint(p.getX() - 1, p.getY() + 4, p.getZ() + 2);
  }
}
void change(Gen& g, F2CPoint& p) { changePt(g, p); }
template <class T> void changePts(Gen& g, T& t) {
  switch (g.below(4)) {
    case 0: t.addPoint(1234, 4321); break;
    case 1: if (t.size() > 0) {
        t.setGeometry(g.below(t.size()), F2CPoint(-999, 999, 1));
      } else { t.addPoint(1, 2); }
      break;
    case 2: t *= 3; t.addPoint(0, 1); break;
    default: for (auto&& p : t) { p = p + F2CPoint(5, 5); }
             t.addPoint(7, 7);
  }
}
void change(Gen& g, F2CMultiPoint& t) { changePts(g, t); }
void change(Gen& g, F2CLineString& t) {
  if (g.boolean()) { t.reversePoints(); }
  changePts(g, t);
}
void change(Gen& g, F2CLinearRing& t) {
  if (g.boolean()) { t.reversePoints(); }
  changePts(g, t);
}
template <class T, class C> void changeNested(Gen& g, T& t) {
  switch (g.below(4)) {
    case 0: t *= 2.5; break;
    case 1: for (auto&& c : t) { change(g, c); } break;
    case 2: if (t.size() > 0) {
        C c = t.getGeometry(0).clone();
        c *= 3;
        t.setGeometry(g.below(t.size()), c);
      }
      break;
    default: if (t.size() > 0) { t.addGeometry(t.getGeometry(0)); }
  }
}
void change(Gen& g, F2CMultiLineString& t) {
  changeNested<F2CMultiLineString, F2CLineString>(g, t);
}
void change(Gen& g, F2CCell& t) {
  switch (g.below(3)) {
    case 0: t *= 2.5; break;
    case 1: for (auto&& r : t) { r *= 0.5; } break;
    default: t.addRing(F2CLinearRing({F2CPoint(0, 0), F2CPoint(1, 0),
                   F2CPoint(1, 1), F2CPoint(0, 0)}));
  }
}
void change(Gen& g, F2CCells& t) {
  switch (g.below(3)) {
    case 0: t *= 2.5; break;
    case 1: for (auto&& r : t) { change(g, r); } break;
    default: if (t.size() > 0) { t.addGeometry(t.getGeometry(0)); }
  }
}
void change(Gen& g, F2CSwath& s) {
  switch (g.below(8)) {
    case 0: s.reverse(); break;
    case 1: s.setId(s.getId() + 1); break;
    case 2: s.setWidth(s.getWidth() + 1); break;
    case 3: s.setCreationDir(!s.getCreationDir()); break;
    case 4: s.setType(s.getType() == f2c::types::SwathType::MAINLAND ?
                f2c::types::SwathType::HEADLAND :
                f2c::types::SwathType::MAINLAND); break;
    case 5: s.moveTo(F2CPoint(3, 4)); break;
    case 6: { F2CLineString l = s.getPath(); change(g, l); break; }
    default: s.setPath(F2CLineString({F2CPoint(0, 0), F2CPoint(9, 9)}));
  }
}
void change(Gen& g, F2CSwaths& s) {
  switch (g.below(5)) {
    case 0: s.moveTo(F2CPoint(3, 4)); break;
    case 1: s.reverse(); break;
    case 2: s.emplace_back(F2CSwath(F2CLineString({F2CPoint(0, 0),
                    F2CPoint(9, 9)}), 2)); break;
    case 3: s.sort(); break;
    default: if (s.size() > 0) { change(g, s.at(g.below(s.size()))); }
  }
}
void change(Gen& g, F2CSwathsByCells& s) {
  if (s.size() == 0 || g.boolean()) { s.push_back(F2CSwaths()); return; }
  change(g, s.at(g.below(s.size())));
}
void change(Gen& g, F2CRoute& r) {
  switch (g.below(4)) {
    case 0: r.addConnection(F2CPoint(1, 2)); break;
    case 1: r.addSwath(swath(g)); break;
    case 2: if (r.sizeConnections() > 0) {
        change(g, r.getConnection(g.below(r.sizeConnections())));
      }
      break;
    default: if (r.sizeVectorSwaths() > 0) {
        change(g, r.getSwaths(g.below(r.sizeVectorSwaths())));
      }
  }
}
void change(Gen& g, F2CStrip& s) {
  switch (g.below(3)) {
    case 0: s.setName(s.getName() + "x"); break;
    case 1: change(g, s.getCell()); break;
    default: s.setCell(F2CCell());
  }
}
void change(Gen& g, F2CField& f) {
  switch (g.below(6)) {
    case 0: f.setId(f.getId() + "x"); break;
    case 1: f.setCRS(f.getCRS() + "x"); break;
    case 2: f.setPrevCRS(f.getPrevCRS() + "x"); break;
    case 3: f.setRefPoint(f.getRefPoint() + F2CPoint(1, 1)); break;
    case 4: changePt(g, f.getRefPoint()); break;
    default: change(g, f.getField());
  }
}

template <class T> void check(Gen& g, T& t) {
  const Snap s0 = snapOf(t);
  T c = t.clone();
  std::string why;
  CHECK(same(s0, snapOf(t), 0, &why), " cloning changed the original: ", why);
  CHECK(same(s0, snapOf(c), 0, &why), " the clone differs: ", why);
  const Snap c0 = snapOf(c);
  size_t visible = 0;
  for (size_t k = g.size(1, 4); k-- > 0;) {
    change(g, c);
    CHECK(same(s0, snapOf(t), 0, &why),
        " changing the clone changed the original: ", why);
    visible += !same(c0, snapOf(c), 0, &why);
  }
  const Snap c1 = snapOf(c);
  for (size_t k = g.size(1, 4); k-- > 0;) {
    change(g, t);
    CHECK(same(c1, snapOf(c), 0, &why),
        " changing the original changed the clone: ", why);
    visible += !same(s0, snapOf(t), 0, &why);
  }
  if (visible) { g.nontrivial(); }
}
void points(Gen& g) { F2CPoint p = point(g); check(g, p); }
void multipoints(Gen& g) { F2CMultiPoint p = multiPoint(g, 0, 5); check(g, p); }
void lines(Gen& g) { F2CLineString p = lineString(g, 0, 5); check(g, p); }
void rings(Gen& g) {
  F2CLinearRing r;
  for (size_t k = g.size(0, 5); k-- > 0;) { r.addPoint(point(g)); }
  check(g, r);
}
void multilines(Gen& g) {
  F2CMultiLineString m;
  for (size_t k = g.size(0, 4); k-- > 0;) {
    m.addGeometry(lineString(g, 2, 4));
  }
  check(g, m);
}
void cells1(Gen& g) { F2CCell c = fx::cell(orc::genPoly(g, orc::sieve())); check(g, c); }
void cellsN(Gen& g) {
  F2CCells c = fx::cells(orc::genMany(g));
  check(g, c);
}
void swath1(Gen& g) {
  F2CSwath s = g.chance(1, 8) ? F2CSwath() : swath(g);
  if (s.getWidth() == 0) {   // default constructed: nothing set yet
    g.note("default constructed swath");
    const F2CSwath c = s.clone();
    std::string why;
    CHECK(same(snapOf(s), snapOf(c), 0, &why), " the clone differs: ", why);
    return;
  }
  check(g, s);
}
void swathsN(Gen& g) { F2CSwaths s = swaths(g, 0, 4); check(g, s); }
void swathsB(Gen& g) {
  F2CSwathsByCells s = swathsByCells(g, 0, 4);
  check(g, s);
}
void routes(Gen& g) { F2CRoute r = route(g); check(g, r); }
void strips(Gen& g) {
  F2CStrip s;
  s.setName(word(g));
  if (g.boolean()) { s.setCell(fx::cell(orc::genPoly(g))); }
  check(g, s);
}
void fields(Gen& g) {
  F2CField f = g.chance(1, 8) ? F2CField() : field(g);
  g.note("crs ", f.getCRS(), " prev ", f.getPrevCRS(), " ref ",
      f.getRefPoint());
  check(g, f);
}

// Values kept in a standard container: a model list of snapshots goes through
// the same changes.
template <class V> void swapAny(V& a, V& b) { using std::swap; swap(a, b); }
template <class T, class F> void kept(Gen& g, F make) {
  std::vector<T> v;
  std::vector<Snap> m;
  auto add = [&](size_t at) {
    T t = make();
    const Snap s = snapOf(t);
    switch (g.below(3)) {
      case 0: v.insert(v.begin() + at, t); break;
      case 1: v.insert(v.begin() + at, std::move(t)); break;
      default: v.emplace(v.begin() + at, t);
    }
    m.insert(m.begin() + at, s);
  };
  for (size_t k = g.size(1, 5); k-- > 0;) { add(v.size()); }
  std::string log;
  for (size_t k = g.size(1, 6); k-- > 0;) {
    const size_t n = v.size();
    const size_t i = n ? g.below(n) : 0, j = n ? g.below(n) : 0;
    const size_t lo = std::min(i, j), hi = std::max(i, j);
    const size_t op = n == 0 ? 0 : g.below(9);
    log += " " + std::to_string(op) + "(" + std::to_string(i) + "," +
      std::to_string(j) + ")";
    switch (op) {
      case 0: add(g.below(n + 1)); break;
      case 1: v.erase(v.begin() + i); m.erase(m.begin() + i); break;
      case 2: if (i != j) { swapAny(v[i], v[j]); swapAny(m[i], m[j]); } break;
      case 3: std::reverse(v.begin() + lo, v.begin() + hi + 1);
              std::reverse(m.begin() + lo, m.begin() + hi + 1); break;
      case 4: std::rotate(v.begin(), v.begin() + i, v.end());
              std::rotate(m.begin(), m.begin() + i, m.end()); break;
      case 5: { T t = std::move(v[i]);
                if (i != j) { v[i] = std::move(v[j]); }
                v[j] = std::move(t);
                if (i != j) { swapAny(m[i], m[j]); }
                break; }
      case 6: { std::vector<T> w(v); v = w; break; }
      case 7: { std::vector<T> w(std::move(v));
                v = std::vector<T>(std::make_move_iterator(w.begin()),
                    std::make_move_iterator(w.end()));
                for (size_t q = 0; q < n; ++q) { w[q] = v[q]; }
                v = w; break; }
      default: if (i != j) { v[i] = v[j]; m[i] = m[j]; }
    }
  }
  g.note("changes of the list:", log);
  CHECK_EQ(v.size(), m.size());
  for (size_t i = 0; i < v.size(); ++i) {
    std::string why;
    CHECK(same(m[i], snapOf(v[i]), 0, &why), " element ", i,
        " of a list after", log, ": ", why);
  }
  if (v.size() > 1) { g.nontrivial(); }
}
void containers(Gen& g) {
  const size_t what = g.below(10);
  g.note("kind ", what);
  switch (what) {
    case 0: case 1: kept<F2CPoint>(g, [&] { return point(g); }); break;
    case 2: kept<F2CLineString>(g, [&] { return lineString(g, 0, 4); }); break;
    case 3: kept<F2CMultiPoint>(g, [&] { return multiPoint(g, 0, 4); }); break;
    case 4: kept<F2CCell>(g, [&] { return fx::cell(orc::genPoly(g)); }); break;
    case 5: kept<F2CSwath>(g, [&] { return swath(g); }); break;
    case 6: kept<F2CSwaths>(g, [&] { return swaths(g, 0, 3); }); break;
    case 7: kept<F2CRoute>(g, [&] { return route(g); }); break;
    case 8: kept<F2CField>(g, [&] { return field(g); }); break;
    default: kept<F2CCells>(g, [&] {
        return fx::cells(orc::genMulti(g, 2)); });
  }
}
}  // namespace

Property& pbt::theProperty() {
  static Property p{"C04",
    "every cloneable type with random content; the clone and then the "
    "original are modified up to 4 times each; non-trivial: at least one "
    "modification was visible on the object it was made on",
    {{"point", 20000, 200000, points},
     {"multipoint", 10000, 100000, multipoints},
     {"linestring", 10000, 100000, lines},
     {"linearring", 10000, 100000, rings},
     {"multilinestring", 8000, 80000, multilines},
     {"cell", 8000, 80000, cells1},
     {"cells", 8000, 80000, cellsN},
     {"swath", 15000, 150000, swath1},
     {"swaths", 10000, 100000, swathsN},
     {"swaths-by-cells", 6000, 60000, swathsB},
     {"route", 8000, 80000, routes},
     {"strip", 8000, 80000, strips},
     {"field", 12000, 120000, fields},
     {"container", 20000, 200000, containers}}};
  return p;
}
