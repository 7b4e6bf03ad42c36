// C05 text forms: WKT round-trip, coordinates in JSON, GML and KML.
#include <cstdlib>
#include "gens.hpp"
using namespace pbt;
using namespace gn;
namespace {

// Numbers of the text between tags (xml) or anywhere outside quotes (json).
std::vector<double> numbers(const std::string& s, bool xml) {
  std::vector<double> out;
  bool in_tag = false, quoted = false;
  for (size_t i = 0; i < s.size();) {
    const char c = s[i];
    if (xml && c == '<') { in_tag = true; ++i; continue; }
    if (xml && c == '>') { in_tag = false; ++i; continue; }
    if (!xml && c == '"') { quoted = !quoted; ++i; continue; }
    if (!in_tag && !quoted && (c == '-' || (c >= '0' && c <= '9'))) {
      char* e = nullptr;
      out.push_back(std::strtod(s.c_str() + i, &e));
      i = static_cast<size_t>(e - s.c_str());
      continue;
    }
    ++i;
  }
  return out;
}
void lists(const std::string& text, bool xml, const Snap& s, double rel,
    const char* what) {
  const std::vector<double> n = numbers(text, xml);
  const size_t pts = s.num.size() / 3;
  if (n.size() == 3 * pts) {
    for (size_t i = 0; i < n.size(); ++i) {
      CHECK(std::fabs(n[i] - s.num[i]) <= rel * (1 + std::fabs(s.num[i])), " ",
          what, " lists ", n[i], " for ", s.num[i], " in ", text);
    }
    return;
  }
  CHECK(n.size() == 2 * pts, " ", what, " lists ", n.size(), " numbers for ",
      pts, " points: ", text);
  for (size_t i = 0; i < pts; ++i) {
    for (size_t k = 0; k < 2; ++k) {
      const double e = s.num[3 * i + k];
      CHECK(std::fabs(n[2 * i + k] - e) <= rel * (1 + std::fabs(e)), " ", what,
          " lists ", n[2 * i + k], " for ", e, " in ", text);
    }
    CHECK(s.num[3 * i + 2] == 0, " ", what, " drops the height");
  }
}
template <class T> void check(Gen& g, const T& t, T& other) {
  const Snap s = snapOf(t);
  const std::string w = t.exportToWkt();
  g.note(w);
  std::string why;
  T u;
  u.importFromWkt(w);
  CHECK(same(s, snapOf(u), 1e-12, &why), " ", w, ": ", why);
  const std::string w2 = u.exportToWkt();
  T v;
  v.importFromWkt(w2);
  CHECK(same(snapOf(u), snapOf(v), 1e-14, &why), " second round trip: ", why);
  // import over earlier content
  other.importFromWkt(w);
  CHECK(same(s, snapOf(other), 1e-12, &why), " import over other content: ",
      why);
  CHECK(same(s, snapOf(t), 0, &why), " export changed the object: ", why);
  if (s.num.empty()) { return; }
  lists(t.exportToJson(), false, s, 1e-9, "JSON");
  lists(t.exportToGML(), true, s, 1e-9, "GML");
  bool geo = true;   // KML is for longitudes and latitudes
  for (double d : s.num) { geo &= std::fabs(d) <= 85; }
  if (geo) { lists(t.exportToKML(), true, s, 1e-9, "KML"); }
  g.nontrivial();
}
// Structure as read back by the independent GML and GeoJSON readers.
template <class T> void readers(Gen& g, const T& t) {
  const Snap s = snapOf(t);
  if (s.num.empty()) { return; }
  std::string why;
  OGRGeometry* j =
    OGRGeometryFactory::createFromGeoJson(t.exportToJson().c_str());
  CHECK(j != nullptr);
  const T tj(static_cast<const OGRGeometry*>(j));
  OGRGeometryFactory::destroyGeometry(j);
  CHECK(same(s, snapOf(tj), 1e-9, &why), " through JSON: ", why);
  OGRGeometry* m = OGRGeometryFactory::createFromGML(t.exportToGML().c_str());
  CHECK(m != nullptr);
  const T tm(static_cast<const OGRGeometry*>(m));
  OGRGeometryFactory::destroyGeometry(m);
  CHECK(same(s, snapOf(tm), 1e-9, &why), " through GML: ", why);
  (void)g;
}
void points(Gen& g) {
  const F2CPoint p = point(g);
  F2CPoint o = point(g);
  check(g, p, o);
  readers(g, p);
}
void multipoints(Gen& g) {
  const F2CMultiPoint p = multiPoint(g, 0, 5);
  F2CMultiPoint o = multiPoint(g, 0, 5);
  check(g, p, o);
  readers(g, p);
}
void lines(Gen& g) {
  const F2CLineString p = lineString(g, g.boolean() ? 2 : 0, 5);
  F2CLineString o = lineString(g, 0, 5);
  check(g, p, o);
  if (p.size() > 1) { readers(g, p); }
}
void rings(Gen& g) {
  F2CLinearRing p, o;
  for (size_t k = g.size(0, 6); k-- > 0;) { p.addPoint(point(g)); }
  for (size_t k = g.size(0, 4); k-- > 0;) { o.addPoint(point(g)); }
  check(g, p, o);
}
void multilines(Gen& g) {
  F2CMultiLineString p, o;
  for (size_t k = g.size(0, 4); k-- > 0;) { p.addGeometry(lineString(g, 2, 4)); }
  for (size_t k = g.size(0, 3); k-- > 0;) { o.addGeometry(lineString(g, 2, 4)); }
  check(g, p, o);
  readers(g, p);
}
void cell1(Gen& g) {
  const F2CCell p = fx::cell(orc::genPoly(g, orc::sieve()));
  F2CCell o = g.boolean() ? F2CCell() : fx::cell(orc::genPoly(g, orc::sieve()));
  check(g, p, o);
  readers(g, p);
}
void cellsN(Gen& g) {
  const F2CCells p = fx::cells(orc::genMany(g));
  F2CCells o = g.boolean() ? F2CCells() : fx::cells(orc::genMany(g));
  check(g, p, o);
  readers(g, p);
}
}  // namespace

Property& pbt::theProperty() {
  static Property p{"C05",
    "every geometry type with integer to full precision coordinates up to "
    "6e6, with and without heights; non-trivial: non-empty geometry",
    {{"point", 12000, 120000, points},
     {"multipoint", 8000, 80000, multipoints},
     {"linestring", 8000, 80000, lines},
     {"linearring", 8000, 80000, rings},
     {"multilinestring", 6000, 60000, multilines},
     {"cell", 6000, 60000, cell1},
     {"cells", 6000, 60000, cellsN}}};
  return p;
}
