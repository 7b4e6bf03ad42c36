// C26 importing field files reproduces their content.
#include "gens.hpp"
#include <cpl_error.h>
#include <fstream>
#include <locale>
#include <unistd.h>
#include "fields2cover/utils/parser.h"
using namespace pbt;
using namespace orc;
using P = f2c::Parser;
namespace {
// A file in memory-backed or temporary storage that goes when it is done with.
struct File {
  std::string path;
  explicit File(const std::string& text) {
    char name[] = "/tmp/f2c_c26_XXXXXX";
    const int fd = mkstemp(name);
    CHECK(fd >= 0, " no temporary file");
    path = name;
    size_t at = 0;
    while (at < text.size()) {
      const ssize_t n = write(fd, text.data() + at, text.size() - at);
      CHECK(n > 0, " temporary file");
      at += n;
    }
    close(fd);
  }
  ~File() { unlink(path.c_str()); }
};
// A process that formats numbers as "1.234,5", as many users' do.
struct Comma : std::numpunct<char> {
  char do_decimal_point() const override { return ','; }
  char do_thousands_sep() const override { return '.'; }
  std::string do_grouping() const override { return "\3"; }
};
struct Locale {
  std::locale old;
  explicit Locale(bool comma) : old() {
    if (comma) { std::locale::global(std::locale(std::locale::classic(), new Comma)); }
  }
  ~Locale() { std::locale::global(old); }
};
struct P3 { double x, y, z; };
typedef std::vector<P3> Line;
typedef std::vector<Line> Rings;
std::string fmt(Gen& g, double v) {
  char b[64];
  switch (g.weighted({6, 1, 1, 1})) {
    case 0: snprintf(b, sizeof b, "%.17g", v); break;
    case 1: snprintf(b, sizeof b, "%.17e", v); break;
    case 2: snprintf(b, sizeof b, "%.14f", v); break;
    default: snprintf(b, sizeof b, "%.17g", v);
  }
  if (std::strtod(b, nullptr) != v) { snprintf(b, sizeof b, "%.17g", v); }
  return b;
}
double coord(Gen& g) {
  switch (g.weighted({5, 2, 2, 1})) {
    case 0: return g.uniform(-179, 179);
    case 1: return (double)g.integer(-60, 60);
    case 2: return g.uniform(2e5, 9e6);
    default: return g.uniform(-1e-3, 1e-3);
  }
}
Rings rings(Gen& g) {
  ShapeOpt o;
  o.max_vertices = 9;
  const Multi m = genMulti(g, 1, o);
  const V at(coord(g), coord(g));
  const double k = g.pick(std::vector<double>{1, 1e-4, 100});
  Rings r;
  auto add = [&] (const Ring& q) {
    Line l;
    for (auto&& v : q) { l.push_back({at.x + v.x * k, at.y + v.y * k, 0}); }
    l.push_back(l[0]);
    r.push_back(l);
  };
  if (m.empty()) { throw Discard(); }
  add(m[0].outer);
  for (auto&& h : m[0].holes) { add(h); }
  return r;
}
void sameLine(const Line& a, const OGRSimpleCurve* b, double near, const std::string& what) {
  double big = 0;
  for (auto&& q : a) { big = std::max({big, std::fabs(q.x), std::fabs(q.y)}); }
  near += 1e-12 * big;   // kept relative to another point of the field
  CHECK(b != nullptr, " missing ", what);
  CHECK_EQ((size_t)b->getNumPoints(), a.size(), "points of ", what);
  for (size_t i = 0; i < a.size(); ++i) {
    const double tol = 1e-12 * (std::fabs(a[i].x) + std::fabs(a[i].y)) + near;
    CHECK_NEAR(b->getX(i), a[i].x, tol, "x of point ", i, " of ", what);
    CHECK_NEAR(b->getY(i), a[i].y, tol, "y of point ", i, " of ", what);
    CHECK_NEAR(b->getZ(i), a[i].z, tol + 1e-12 * std::fabs(a[i].z), "height of point ", i, " of ", what);
  }
}
void sameCell(const Rings& a, const F2CCell& c, const std::string& what) {
  CHECK_EQ(c.size(), a.size(), "rings of ", what);
  double near = 1e-13;
  for (auto&& q : a[0]) { near = std::max({near, 1e-12 * std::fabs(q.x), 1e-12 * std::fabs(q.y)}); }
  sameLine(a[0], c.get()->getExteriorRing(), near, "outer ring of " + what);
  for (size_t i = 1; i < a.size(); ++i) {
    sameLine(a[i], c.get()->getInteriorRing(i - 1), near, "ring " + std::to_string(i) + " of " + what);
  }
}
void sameField(const Rings& a, const F2CField& f, const std::string& what) {
  const F2CCells c = f.getCellsAbsPosition();
  CHECK_EQ(c.size(), (size_t)1, "cells of ", what);
  sameCell(a, c.getGeometry(0), what);
}
std::string name(Gen& g) {
  static const std::vector<std::string> bits{"a", "B", "7", " ", "-", "_", "é", "&", "<", ">", "'", "\"", "ß", ",", ":", "{", "]"};
  std::string s;
  for (size_t k = g.size(0, 8); k-- > 0;) { s += g.pick(bits); }
  return s;
}
std::string xmlEsc(const std::string& s) {
  std::string r;
  for (char c : s) {
    if (c == '&') { r += "&amp;"; } else if (c == '<') { r += "&lt;"; } else if (c == '>') { r += "&gt;"; }
    else if (c == '"') { r += "&quot;"; } else if (c == '\'') { r += "&apos;"; } else { r += c; }
  }
  return r;
}
std::string jsonStr(const std::string& s) {
  std::string r = "\"";
  for (char c : s) { if (c == '"' || c == '\\') { r += '\\'; } r += c; }
  return r + "\"";
}
// ---- gml
struct Gml { std::string id, crs; bool has_id, z = false; Rings r; };
std::string gap(Gen& g) {
  return g.pick(std::vector<std::string>{"", " ", "\n", "\n  ", "\t", "<!-- c -->", "\n<!-- <geometry/> -->\n"});
}
std::string gmlText(Gen& g, const Gml& m) {
  std::string s;
  if (g.boolean()) { s += "<?xml version=\"1.0\" encoding=\"UTF-8\"?>\n"; }
  s += "<" + std::string("GAOS_parcel") + " xmlns:gml=\"http://www.opengis.net/gml\"";
  if (m.has_id) { s += " id=\"" + xmlEsc(m.id) + "\""; }
  s += ">" + gap(g);
  if (g.chance(1, 3)) { s += "<Owner id=\"no\"><geometry>x</geometry></Owner>" + gap(g); }
  s += "<Field area=\"17.2\" id=\"boundary\">" + gap(g);
  if (g.chance(1, 4)) { s += "<note>t</note>" + gap(g); }
  s += "<geometry>" + gap(g) + "<gml:Polygon srsName=\"" + m.crs + "\">" + gap(g);
  for (size_t i = 0; i < m.r.size(); ++i) {
    const std::string b = i == 0 ? "gml:outerBoundaryIs" : "gml:innerBoundaryIs";
    s += "<" + b + ">" + gap(g) + "<gml:LinearRing>" + gap(g) + "<gml:coordinates>";
    const std::string ws = g.pick(std::vector<std::string>{" ", " ", "\n", "  ", "\n\t"});
    if (g.chance(1, 3)) { s += ws; }
    for (size_t k = 0; k < m.r[i].size(); ++k) {
      s += (k ? ws : "") + fmt(g, m.r[i][k].x) + "," + fmt(g, m.r[i][k].y) +
        (m.z ? "," + fmt(g, m.r[i][k].z) : "");
    }
    if (g.chance(1, 3)) { s += ws; }
    s += "</gml:coordinates>" + gap(g) + "</gml:LinearRing>" + gap(g) + "</" + b + ">" + gap(g);
  }
  s += "</gml:Polygon>" + gap(g) + "</geometry>" + gap(g) + "</Field>" + gap(g);
  if (g.chance(1, 4)) { s += "<Field><geometry><gml:LineString><gml:coordinates>1,2 3,4</gml:coordinates></gml:LineString></geometry></Field>"; }
  return s + "</GAOS_parcel>\n";
}
Gml gmlModel(Gen& g) {
  Gml m;
  m.has_id = g.chance(3, 4);
  if (m.has_id) { m.id = name(g); }
  m.crs = g.pick(std::vector<std::string>{"EPSG:4258", "EPSG:4326", "EPSG:28992", "UTM:31N", "UTM:19S datum:WGS84"});
  m.r = rings(g);
  m.z = g.chance(1, 4);
  if (m.z) {
    for (auto&& r : m.r) {
      for (auto&& p : r) { p.z = (double)g.integer(-50, 3000) / 4; }
      r.back().z = r.front().z;
    }
  }
  return m;
}
void isGml(const Gml& m, const F2CField& f, const std::string& what) {
  CHECK_EQ(f.getId(), m.id, "id of ", what);
  CHECK_EQ(f.getCRS(), m.crs, "coordinate system of ", what);
  CHECK_EQ(f.getPrevCRS(), "", "previous coordinate system of ", what);
  sameField(m.r, f, what);
}
void gml(Gen& g) {
  F2CFields fs;
  std::vector<Gml> ms;
  const Locale lc(g.chance(1, 4));
  for (size_t k = g.size(1, 3); k-- > 0;) {
    Gml m = gmlModel(g);
    const bool odd = g.chance(1, 6);
    if (odd) { m.crs = g.pick(std::vector<std::string>{"urn:x", "", "local"}); }
    const File file(gmlText(g, m));
    if (odd) {
      CHECK_THROWS(P::importFieldGml(file.path), " unknown system '" + m.crs + "' imported");
      const F2CField f = P::importFieldGml(file.path, true);
      isGml(m, f, "field with unknown system");
      continue;
    }
    P::importGml(file.path, fs);
    ms.push_back(m);
    isGml(m, P::importFieldGml(file.path), "one field");
    isGml(m, P::importFieldGml(file.path, true), "one field, silently");
    if (m.r.size() > 1) { g.nontrivial(); }
  }
  CHECK_EQ(fs.size(), ms.size(), "fields imported");
  for (size_t i = 0; i < ms.size(); ++i) { isGml(ms[i], fs[i], "field " + std::to_string(i)); }
}
// ---- json
struct Doc {
  std::string text;
  std::vector<Rings> r;       // polygons
  std::vector<Line> l;        // lines
  std::vector<std::string> n;  // names
  std::vector<double> w;
  std::vector<int> id;
};
std::string arr(Gen& g, const Line& l, bool z) {
  std::string s = "[";
  for (size_t i = 0; i < l.size(); ++i) {
    s += (i ? "," : "") + std::string("[") + fmt(g, l[i].x) + ", " + fmt(g, l[i].y) + (z ? "," + fmt(g, l[i].z) : "") + "]";
  }
  return s + "]";
}
enum Kind { FIELDS, STRIPS, SWATHS };
Doc json(Gen& g, Kind kind, size_t lo = 0) {
  Doc d;
  const bool z = g.chance(1, 3);
  auto heights = [&] (Line& l, bool closed) {
    for (auto&& q : l) { q.z = z ? (g.chance(1, 4) ? 0.0 : g.real(-400, 4000)) : 0.0; }
    if (closed) { l.back().z = l.front().z; }
  };
  std::string s = "{\n \"type\": \"FeatureCollection\",";
  if (g.boolean()) { s += "\"name\": \"x\", "; }
  s += "\"features\": [";
  const size_t n = g.size(lo, 4);
  for (size_t k = 0; k < n; ++k) {
    std::string geom, prop;
    if (kind == SWATHS) {
      Line l;
      for (size_t q = g.size(2, 4); q-- > 0;) {
        if (!l.empty() && g.chance(1, 8)) { l.push_back(l.back()); } else { l.push_back({coord(g), coord(g), 0}); }
      }
      heights(l, false);
      d.l.push_back(l);
      d.w.push_back(g.boolean() ? g.real(0.1, 40) : (double)g.integer(1, 30));
      d.id.push_back((int)g.integer(0, 2000));
      geom = "{\"type\": \"LineString\", \"coordinates\": " + arr(g, l, z) + "}";
      prop = "{\"path_id\": " + std::to_string(d.id.back()) + ", \"width\": " + fmt(g, d.w.back()) + "}";
    } else {
      d.r.push_back(rings(g));
      for (auto&& q : d.r.back()) { heights(q, true); }
      d.n.push_back(name(g));
      std::string a;
      for (auto&& q : d.r.back()) { a += (a.empty() ? "" : ",\n") + arr(g, q, z); }
      geom = "{\"type\": \"Polygon\", \"coordinates\": [" + a + "]}";
      prop = "{" + std::string(kind == FIELDS ? "\"Name\"" : "\"crop_id\"") + ": " + jsonStr(d.n.back()) + ", \"extra\": [1, {}]}";
    }
    s += (k ? ",\n" : "\n") + std::string("{\"type\": \"Feature\", ");
    s += g.boolean() ? "\"properties\": " + prop + ", \"geometry\": " + geom : "\"geometry\": " + geom + ", \"properties\": " + prop;
    s += "}";
  }
  d.text = s + "]}";
  return d;
}
void fields(Gen& g) {
  const Locale lc(g.chance(1, 4));
  const Doc d = json(g, FIELDS);
  F2CFields fs;
  size_t before = 0;
  const File file(d.text);
  if (g.boolean()) { fs.emplace_back(F2CCells(), "old"); before = 1; }
  CHECK_EQ(P::importJson(file.path, fs), 0, "result of importJson");
  CHECK_EQ(fs.size(), before + d.r.size(), "fields imported");
  if (before) { CHECK_EQ(fs[0].getId(), "old", "field that was there before"); }
  for (size_t i = 0; i < d.r.size(); ++i) {
    CHECK_EQ(fs[before + i].getId(), d.n[i], "name of field ", i);
    sameField(d.r[i], fs[before + i], "field " + std::to_string(i));
    CHECK_EQ(fs[before + i].getCRS(), "", "coordinate system");
    if (d.r[i].size() > 1 && i > 0) { g.nontrivial(); }
  }
  if (!d.r.empty()) { sameCell(d.r[0], P::importCellJson(file.path), "first cell"); }
  else { CHECK_THROWS(P::importCellJson(file.path), " cell of a file without features"); }
}
void strips(Gen& g) {
  const Locale lc(g.chance(1, 4));
  const Doc d = json(g, STRIPS);
  const File file(d.text);
  const F2CStrips s = P::importStripsJson(file.path);
  CHECK_EQ(s.size(), d.r.size(), "strips imported");
  for (size_t i = 0; i < s.size(); ++i) {
    CHECK_EQ(s[i].getName(), d.n[i], "name of strip ", i);
    sameCell(d.r[i], s[i].getCell(), "strip " + std::to_string(i));
  }
  if (s.size() > 1) { g.nontrivial(); }
}
void swaths(Gen& g) {
  const Locale lc(g.chance(1, 4));
  const Doc d = json(g, SWATHS);
  const File file(d.text);
  const F2CSwaths s = P::importSwathsJson(file.path);
  CHECK_EQ(s.size(), d.l.size(), "swaths imported");
  for (size_t i = 0; i < s.size(); ++i) {
    CHECK_EQ(s[i].getId(), d.id[i], "id of swath ", i);
    CHECK_NEAR(s[i].getWidth(), d.w[i], 1e-12 * d.w[i], "width of swath ", i);
    CHECK(s[i].getType() == f2c::types::SwathType::MAINLAND, " type of swath ", i);
    sameLine(d.l[i], s[i].getPath().get(), 1e-13, "swath " + std::to_string(i));
  }
  if (s.size() > 1) { g.nontrivial(); }
}
// Damaged files are reported: an error, never wrong data.
size_t nth(Gen& g, const std::string& s, const std::string& what) {
  std::vector<size_t> at;
  for (size_t p = s.find(what); p != std::string::npos; p = s.find(what, p + 1)) { at.push_back(p); }
  if (at.empty()) { throw Discard(); }
  return g.pick(at);
}
std::string swap(const std::string& s, size_t at, size_t n, const std::string& by) {
  return s.substr(0, at) + by + s.substr(at + n);
}
void badGml(Gen& g) {
  CPLPushErrorHandler(CPLQuietErrorHandler);
  const Gml m = gmlModel(g);
  std::string s = gmlText(g, m);
  const size_t kind = g.below(6);
  static const std::vector<std::string> tags{"Field", "geometry", "gml:Polygon", "gml:outerBoundaryIs", "gml:LinearRing", "gml:coordinates"};
  if (kind == 0) {   // cut
    const size_t end = s.rfind("</GAOS_parcel>");
    s = s.substr(0, g.below(end + 13));
    g.note("cut");
  } else if (kind == 1) {   // another name for an element on the way
    const std::string t = g.pick(tags);
    // every occurrence, so that nothing of the kind is left
    std::string r;
    for (size_t p = 0; p < s.size();) {
      bool hit = false;
      for (auto&& open : {std::string("<") + t, std::string("</") + t}) {
        const char after = p + open.size() < s.size() ? s[p + open.size()] : ' ';
        if (s.compare(p, open.size(), open) == 0 && (after == '>' || after == ' ')) {
          r += open + "X";
          p += open.size();
          hit = true;
          break;
        }
      }
      if (!hit) { r += s[p++]; }
    }
    s = r;
    g.note("renamed ", t);
  } else if (kind == 2) {
    const size_t p = s.find(" srsName=");
    s = swap(s, p, s.find('>', p) - p, "");
    g.note("no srsName");
  } else if (kind == 3) {   // no coordinates
    const size_t p = s.find("<gml:coordinates>") + 17;
    s = swap(s, p, s.find('<', p) - p, g.boolean() ? "" : "  ");
    g.note("no coordinates");
  } else if (kind == 4) {   // something else among the numbers
    const size_t p = s.find("<gml:coordinates>") + 17, e = s.find('<', p);
    const size_t c = nth(g, s.substr(p, e - p), ",");
    s = swap(s, p + c, 1, g.pick(std::vector<std::string>{",x", ",", "x,"}) + "q");
    g.note("text among the numbers");
  } else {
    s = g.pick(std::vector<std::string>{"", " ", "<a/>", "x", "<a><Field/></a>", "{}", "<a><Field><geometry/></Field></a>", "<a", "<a></b>"});
    g.note("'", s, "'");
  }
  const File file(s);
  F2CFields fs;
  CHECK_THROWS(P::importFieldGml(file.path, g.boolean()), " damaged file was imported");
  CHECK_THROWS(P::importGml(file.path, fs), " damaged file was imported");
  CHECK_EQ(fs.size(), (size_t)0, "fields of a damaged file");
  CHECK_THROWS(P::importGml(file.path + "-not", fs), " missing file was imported");
  CPLPopErrorHandler();
  g.nontrivial();
}
void badJson(Gen& g) {
  const Kind kind = g.pick(std::vector<Kind>{FIELDS, STRIPS, SWATHS});
  Doc d = json(g, kind, 1);
  std::string s = d.text;
  size_t hit = 0;   // feature that is wrong
  switch (g.below(6)) {
    case 0: s = s.substr(0, g.below(s.size())); g.note("cut"); break;
    case 1: {
      const std::vector<std::string> keys{"\"features\"", "\"geometry\"", "\"coordinates\"", "\"properties\"",
        kind == FIELDS ? "\"Name\"" : kind == STRIPS ? "\"crop_id\"" : g.boolean() ? "\"width\"" : "\"path_id\""};
      const std::string k = g.pick(keys);
      const size_t p = nth(g, s, k + ":");
      s = swap(s, p, k.size(), "\"else\"");
      g.note("no ", k);
      break;
    }
    case 2: {   // a number becomes text, null or nothing
      const size_t p = nth(g, s, "[[") + 2, e = s.find(',', p);
      s = swap(s, p, e - p, g.pick(std::vector<std::string>{"\"5\"", "null", "{}", "[]", "x", "-"}));
      g.note("number replaced");
      break;
    }
    case 3: {   // a point with one or no number
      const size_t p = nth(g, s, "[["), a = p + 1, e = s.find(']', a);
      s = swap(s, a, e - a + 1, g.pick(std::vector<std::string>{"[5]", "[]", "[1,2,3,4]", "null", "7"}));
      g.note("point replaced");
      break;
    }
    case 4: {   // another kind of geometry: one more level of brackets
      if (kind == SWATHS) { throw Discard(); }
      const size_t p = nth(g, s, "\"coordinates\": "), a = p + 15, e = s.find('}', a);
      s = swap(s, a, e - a, "[" + s.substr(a, e - a) + "]");
      g.note("multipolygon");
      break;
    }
    default: {
      s = g.pick(std::vector<std::string>{"", " ", "null", "[]", "5", "{", "{}", "<a/>", "{\"features\": 5}", "{\"features\": [5]}", "{\"features\": [{}]}"});
      g.note("'", s, "'");
    }
  }
  (void)hit;
  const File file(s);
  F2CFields fs;
  if (kind == FIELDS) {
    bool silent = true;
    try { silent = P::importJson(file.path, fs) == 0; } catch (const std::exception&) { silent = false; }
    CHECK(!silent, " damaged file was imported");
    // the first cell may be sound even if another is not
    try {
      const F2CCell c = P::importCellJson(file.path);
      sameCell(d.r[0], c, "first cell of a damaged file");
    } catch (const Failure&) { throw; } catch (const std::exception&) {}
  }
  if (kind == STRIPS) { CHECK_THROWS(P::importStripsJson(file.path), " damaged file was imported"); }
  if (kind == SWATHS) { CHECK_THROWS(P::importSwathsJson(file.path), " damaged file was imported"); }
  CHECK_THROWS(P::importJson(file.path + "-not", fs), " missing file was imported");
  CHECK_THROWS(P::importCellJson(file.path + "-not"), " missing file was imported");
  CHECK_THROWS(P::importStripsJson(file.path + "-not"), " missing file was imported");
  CHECK_THROWS(P::importSwathsJson(file.path + "-not"), " missing file was imported");
  g.nontrivial();
}
}  // namespace
Property& pbt::theProperty() {
  static Property p{"C26",
    "generated GML and JSON files with holes, several features, 2 and 3 "
    "numbers per point, number formats, spacing, comments, special characters "
    "and processes with comma decimals; damaged files of every kind; "
    "non-trivial: files with holes or several features; damaged files",
    {{"gml", 1500, 20000, gml}, {"fields", 1500, 20000, fields}, {"strips", 800, 8000, strips},
     {"swaths", 800, 8000, swaths}, {"bad_gml", 1500, 20000, badGml}, {"bad_json", 1500, 20000, badJson}}};
  return p;
}
