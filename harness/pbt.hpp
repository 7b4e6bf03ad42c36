// Small choice-sequence based property-testing core (Hypothesis style).
// Every random decision of a property goes through Gen::below(), which records
// it.  A case *is* its recorded choice list: replay feeds the list back, the
// shrinker edits the list, and the libFuzzer driver decodes bytes into it.
#pragma once
#include <unistd.h>

#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstring>
#include <functional>
#include <map>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <vector>

namespace pbt {

struct Failure : std::runtime_error {
  using std::runtime_error::runtime_error;
};
struct Discard {};

inline uint64_t splitmix(uint64_t& s) {
  uint64_t z = (s += 0x9E3779B97F4A7C15ULL);
  z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ULL;
  z = (z ^ (z >> 27)) * 0x94D049BB133111EBULL;
  return z ^ (z >> 31);
}

// Shared with the parent process, so that a crash leaves the case behind.
struct SharedCase {
  uint32_t facet;
  uint32_t state;      // 0 idle, 1 running, 2 pass, 3 fail, 4 discard
  uint64_t index;
  uint64_t n;
  uint64_t choices[1 << 16];
  char message[4096];
};

class Gen {
 public:
  enum class Mode { Random, Replay, Bytes };
  Mode mode = Mode::Random;
  uint64_t rng = 0;
  std::vector<uint64_t> input;       // Replay
  size_t pos = 0;
  const uint8_t* bytes = nullptr;    // Bytes
  size_t nbytes = 0;
  SharedCase* shared = nullptr;
  std::vector<uint64_t> rec;
  bool overrun = false;
  bool keep_notes = false;
  std::string notes;
  int note_fd = -1;
  bool is_nontrivial = false;
  std::set<std::string> labels;

  // Uniform in [0, n).
  uint64_t below(uint64_t n) {
    uint64_t v = 0;
    if (n <= 1) { v = 0; return 0; }
    if (mode == Mode::Random) {
      v = splitmix(rng) % n;
    } else if (mode == Mode::Replay) {
      if (pos < input.size()) { v = input[pos] % n; } else { overrun = true; }
      ++pos;
    } else {
      uint64_t m = n - 1;
      while (m) {
        v = (v << 8) | (pos < nbytes ? bytes[pos] : 0);
        if (pos >= nbytes) { overrun = true; }
        ++pos;
        m >>= 8;
      }
      v %= n;
    }
    if (rec.size() >= (1u << 16)) { throw Discard(); }
    if (shared) {
      shared->choices[rec.size()] = v;
      shared->n = rec.size() + 1;
    }
    rec.push_back(v);
    return v;
  }

  // Integer in [lo, hi]; shrinks towards the value nearest to 0.
  int64_t integer(int64_t lo, int64_t hi) {
    uint64_t span = static_cast<uint64_t>(hi - lo) + 1;
    uint64_t v = below(span);
    if (lo >= 0) { return lo + static_cast<int64_t>(v); }
    if (hi <= 0) { return hi - static_cast<int64_t>(v); }
    // zig-zag while both sides remain
    uint64_t m = static_cast<uint64_t>(std::min<int64_t>(hi, -lo));
    if (v <= 2 * m) {
      return (v & 1) ? -static_cast<int64_t>((v + 1) / 2)
                     : static_cast<int64_t>(v / 2);
    }
    uint64_t rest = v - 2 * m;  // >= 1
    return hi > -lo ? static_cast<int64_t>(m + rest)
                    : -static_cast<int64_t>(m + rest);
  }
  size_t size(size_t lo, size_t hi) {
    return static_cast<size_t>(integer(static_cast<int64_t>(lo),
                                       static_cast<int64_t>(hi)));
  }
  bool chance(int num, int den) {  // shrinks to false
    return below(static_cast<uint64_t>(den)) >=
      static_cast<uint64_t>(den - num);
  }
  bool boolean() { return below(2) == 1; }
  // Uniform real in [0,1)
  double unit() { return static_cast<double>(below(1ULL << 53)) * 0x1p-53; }
  // Real in [lo, hi]: integers, fractions, decimals or full precision.
  double real(double lo, double hi) {
    switch (weighted({3, 2, 2, 5})) {
      case 0: return grid(lo, hi, 1.0);
      case 1: return grid(lo, hi, 0.25);
      case 2: return grid(lo, hi, 0.01);
      default: return lo + unit() * (hi - lo);
    }
  }
  double uniform(double lo, double hi) { return lo + unit() * (hi - lo); }
  double grid(double lo, double hi, double step) {
    double a = std::ceil(lo / step), b = std::floor(hi / step);
    if (!(b >= a)) { return lo + unit() * (hi - lo); }
    return static_cast<double>(
        integer(static_cast<int64_t>(a), static_cast<int64_t>(b))) * step;
  }
  // log-uniform in [lo, hi], lo > 0
  double logReal(double lo, double hi) {
    return std::exp(uniform(std::log(lo), std::log(hi)));
  }
  // Any angle: multiples of pi/12, of pi/4 far away, tiny, full precision
  double angle(double turns = 3.0) {
    const double pi = M_PI;
    switch (weighted({3, 2, 3, 1, 1})) {
      case 0: return integer(-24, 24) * pi / 12.0;
      case 1: return static_cast<double>(integer(-180, 360)) * pi / 180.0;
      case 2: return uniform(-turns * 2 * pi, turns * 2 * pi);
      case 3: {
        double e = std::pow(10.0, -static_cast<double>(integer(3, 16)));
        return integer(-8, 8) * pi / 2.0 + (boolean() ? e : -e);
      }
      default: return uniform(0, 2 * pi);
    }
  }
  size_t weighted(std::initializer_list<int> w) {
    int tot = 0;
    for (int x : w) { tot += x; }
    int64_t v = static_cast<int64_t>(below(static_cast<uint64_t>(tot)));
    size_t i = 0;
    for (int x : w) {
      if (v < x) { return i; }
      v -= x;
      ++i;
    }
    return w.size() - 1;
  }
  template <class T> const T& pick(const std::vector<T>& v) {
    return v[below(v.size())];
  }

  // Case description, kept only for samples and replays.
  template <class... A> void note(const A&... a) {
    if (!keep_notes) { return; }
    std::ostringstream o;
    o.precision(17);
    int dummy[] = {0, ((o << a), 0)...};
    (void)dummy;
    o << "\n";
    notes += o.str();
    if (note_fd >= 0) {   // written at once, so that a crash keeps them
      const std::string t = o.str();
      if (::write(note_fd, t.data(), t.size()) < 0) { note_fd = -1; }
    }
  }
  void label(const std::string& l) { labels.insert(l); }
  void nontrivial() { is_nontrivial = true; }
};

struct Facet {
  std::string name;
  uint64_t quick;     // cases in the quick tier
  uint64_t thorough;  // cases in the thorough tier
  std::function<void(Gen&)> fn;
};

struct Property {
  std::string id;
  std::string rule;
  std::vector<Facet> facets;
};

Property& theProperty();   // defined by the property's own file

template <class... A> [[noreturn]] inline void fail(const A&... a) {
  std::ostringstream o;
  o.precision(17);
  int dummy[] = {0, ((o << a), 0)...};
  (void)dummy;
  throw Failure(o.str());
}

inline void discardIf(bool c) { if (c) { throw Discard(); } }

}  // namespace pbt

#define PBT_STR2(x) #x
#define PBT_STR(x) PBT_STR2(x)
#define CHECK(cond, ...)                                                   \
  do {                                                                     \
    if (!(cond)) {                                                         \
      ::pbt::fail(__FILE__ ":" PBT_STR(__LINE__) ": ", #cond,              \
          ##__VA_ARGS__);                                                  \
    }                                                                      \
  } while (0)
#define CHECK_NEAR(a, b, tol, ...)                                         \
  do {                                                                     \
    const double va_ = (a), vb_ = (b), vt_ = (tol);                        \
    if (!(std::fabs(va_ - vb_) <= vt_)) {                                  \
      ::pbt::fail(__FILE__ ":" PBT_STR(__LINE__) ": ", #a, " = ", va_,     \
          " but expected ", #b, " = ", vb_, " within ", vt_, " ",          \
          ##__VA_ARGS__);                                                  \
    }                                                                      \
  } while (0)
#define CHECK_EQ(a, b, ...)                                                \
  do {                                                                     \
    const auto va_ = (a); const auto vb_ = (b);                            \
    if (!(va_ == vb_)) {                                                   \
      ::pbt::fail(__FILE__ ":" PBT_STR(__LINE__) ": ", #a, " = ", va_,     \
          " but expected ", #b, " = ", vb_, " ", ##__VA_ARGS__);           \
    }                                                                      \
  } while (0)
// expr must throw something derived from std::exception
#define CHECK_THROWS(expr, ...)                                            \
  do {                                                                     \
    bool threw_ = false;                                                   \
    try { (void)(expr); } catch (const std::exception&) { threw_ = true; } \
    if (!threw_) {                                                         \
      ::pbt::fail(__FILE__ ":" PBT_STR(__LINE__) ": ", #expr,              \
          " was accepted instead of being rejected ", ##__VA_ARGS__);      \
    }                                                                      \
  } while (0)
