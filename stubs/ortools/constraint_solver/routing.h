#pragma once
// Minimal stand-in for the routing solver. A node with two neighbours is always
// visited between them, so the nodes fall apart into chains; the order of up to
// 13 chains is exact (Held-Karp), that of more is the nearest neighbour one
// improved by moving and turning short runs.
#include <algorithm>
#include <cstdint>
#include <functional>
#include <limits>
#include <stdexcept>
#include <vector>

namespace operations_research {

class RoutingIndexManager {
 public:
  class NodeIndex {
   public:
    explicit NodeIndex(int v = 0) : v_(v) {}
    int value() const { return v_; }
   private:
    int v_;
  };
  RoutingIndexManager(int n, int vehicles, NodeIndex depot)
    : n_(n), depot_(depot.value()) {
    if (vehicles != 1 || depot_ < 0 || depot_ >= n_) {
      throw std::out_of_range("one vehicle and an existing depot");
    }
  }
  NodeIndex IndexToNode(int64_t i) const {
    return NodeIndex(i >= n_ ? depot_ : static_cast<int>(i));
  }
  int num_nodes() const { return n_; }
  int depot() const { return depot_; }
 private:
  int n_, depot_;
};

struct FirstSolutionStrategy { enum Value { AUTOMATIC = 15 }; };
struct LocalSearchMetaheuristic {
  enum Value { AUTOMATIC = 6, GUIDED_LOCAL_SEARCH = 2 };
};
struct Duration { void set_seconds(int64_t) {} };
struct RoutingSearchParameters {
  void set_use_full_propagation(bool) {}
  template <class T> void set_first_solution_strategy(T) {}
  template <class T> void set_local_search_metaheuristic(T) {}
  Duration* mutable_time_limit() { return &d_; }
  void set_log_search(bool) {}
  Duration d_;
};
inline RoutingSearchParameters DefaultRoutingSearchParameters() { return {}; }

class Assignment {
 public:
  int64_t Value(int64_t var) const { return next[static_cast<size_t>(var)]; }
  std::vector<int64_t> next;
};

class RoutingModel {
 public:
  explicit RoutingModel(const RoutingIndexManager& m) : m_(m) {}
  int RegisterTransitCallback(
      std::function<long long int(long long int, long long int)> f) {
    f_ = f;
    return 0;
  }
  void SetArcCostEvaluatorOfAllVehicles(int) {}
  int64_t Start(int vehicle) const {
    if (vehicle != 0) { throw std::out_of_range("no such vehicle"); }
    return m_.depot();
  }
  int64_t NextVar(int64_t i) const { return i; }
  bool IsEnd(int64_t i) const { return i >= m_.num_nodes(); }

  const Assignment* SolveWithParameters(const RoutingSearchParameters&) {
    const int n = m_.num_nodes(), dep = m_.depot();
    w_.assign(static_cast<size_t>(n) * static_cast<size_t>(n), 0);
    for (int a = 0; a < n; ++a) {
      for (int b = 0; b < n; ++b) {
        const long long c = f_(a, b);
        w_[static_cast<size_t>(a) * n + b] = c > (1LL << 40) ? (1LL << 40) : c;
      }
    }
    std::vector<Chain> chains = split(n);
    std::vector<Chain> tour = chains.size() <= 14 ? exact(chains) : greedy(chains);
    std::vector<int> nodes;
    for (auto&& c : tour) { nodes.insert(nodes.end(), c.begin(), c.end()); }
    auto at = std::find(nodes.begin(), nodes.end(), dep);
    std::rotate(nodes.begin(), at, nodes.end());
    a_.next.assign(static_cast<size_t>(n) + 1, n);
    for (size_t i = 0; i + 1 < nodes.size(); ++i) {
      a_.next[static_cast<size_t>(nodes[i])] = nodes[i + 1];
    }
    return &a_;
  }

 private:
  typedef std::vector<int> Chain;
  long long cost(int a, int b) const {
    return w_[static_cast<size_t>(a) * m_.num_nodes() + b];
  }
  bool linked(int a, int b) const {
    return a != b && (cost(a, b) < (1LL << 30) || cost(b, a) < (1LL << 30));
  }
  long long inside(const Chain& c) const {
    long long s = 0;
    for (size_t i = 1; i < c.size(); ++i) { s += cost(c[i - 1], c[i]); }
    return s;
  }
  static Chain turned(const Chain& c) { return Chain(c.rbegin(), c.rend()); }
  std::vector<Chain> split(int n) const {
    std::vector<std::vector<int>> must(static_cast<size_t>(n));
    for (int a = 0; a < n; ++a) {
      std::vector<int> nb;
      for (int b = 0; b < n; ++b) { if (linked(a, b)) { nb.push_back(b); } }
      if (nb.size() > 2) { continue; }
      for (int b : nb) {
        auto add = [&](int x, int y) {
          auto& v = must[static_cast<size_t>(x)];
          if (std::find(v.begin(), v.end(), y) == v.end()) { v.push_back(y); }
        };
        add(a, b);
        add(b, a);
      }
    }
    std::vector<bool> used(static_cast<size_t>(n), false);
    std::vector<Chain> out;
    bool bad = false;
    for (int pass = 0; pass < 2; ++pass) {
      for (int a = 0; a < n; ++a) {
        if (must[static_cast<size_t>(a)].size() > 2) { bad = true; }
        if (used[static_cast<size_t>(a)]) { continue; }
        if (pass == 0 && must[static_cast<size_t>(a)].size() == 2) { continue; }
        Chain c;
        for (int x = a; x >= 0;) {
          used[static_cast<size_t>(x)] = true;
          c.push_back(x);
          int next = -1;
          for (int y : must[static_cast<size_t>(x)]) {
            if (!used[static_cast<size_t>(y)]) { next = y; break; }
          }
          x = next;
        }
        out.push_back(c);   // a closed chain is cut anywhere
      }
    }
    if (bad) {
      out.clear();
      for (int a = 0; a < n; ++a) { out.push_back({a}); }
    }
    return out;
  }
  std::vector<Chain> exact(const std::vector<Chain>& ch) const {
    // The first chain stays where it is, either way round.
    const size_t k = ch.size() - 1;
    const size_t S = 1ULL << k;
    const long long INF = 1LL << 60;
    long long best = INF;
    std::vector<Chain> out;
    auto get = [&](size_t i, size_t o) { return o ? turned(ch[i]) : ch[i]; };
    if (k == 0) { return inside(turned(ch[0])) < inside(ch[0]) ? std::vector<Chain>{turned(ch[0])} : ch; }
    for (size_t o0 = 0; o0 < 2; ++o0) {
      const Chain first = get(0, o0);
      std::vector<long long> d(S * k * 2, INF);
      std::vector<int> p(S * k * 2, -1);
      auto at = [&](size_t s, size_t i, size_t o) { return (s * k + i) * 2 + o; };
      for (size_t i = 0; i < k; ++i) {
        for (size_t o = 0; o < 2; ++o) {
          const Chain c = get(i + 1, o);
          d[at(1ULL << i, i, o)] = inside(first) + cost(first.back(), c[0]) + inside(c);
        }
      }
      std::vector<long long> in(k * 2);
      std::vector<int> head(k * 2), tail(k * 2);
      for (size_t i = 0; i < k; ++i) {
        for (size_t o = 0; o < 2; ++o) {
          const Chain c = get(i + 1, o);
          in[i * 2 + o] = inside(c);
          head[i * 2 + o] = c[0];
          tail[i * 2 + o] = c.back();
        }
      }
      for (size_t s = 1; s < S; ++s) {
        for (size_t a = 0; a < k * 2; ++a) {
          const long long v = d[s * k * 2 + a];
          if (!(s >> (a / 2) & 1) || v >= INF) { continue; }
          for (size_t b = 0; b < k * 2; ++b) {
            if (s >> (b / 2) & 1) { continue; }
            const size_t t = (s | 1ULL << (b / 2)) * k * 2 + b;
            const long long c = v + cost(tail[a], head[b]) + in[b];
            if (c < d[t]) { d[t] = c; p[t] = static_cast<int>(a); }
          }
        }
      }
      for (size_t a = 0; a < k * 2; ++a) {
        const long long c = d[(S - 1) * k * 2 + a] + cost(tail[a], first[0]);
        if (c >= best) { continue; }
        best = c;
        out.clear();
        size_t s = S - 1;
        for (int x = static_cast<int>(a); x >= 0;) {
          out.insert(out.begin(), get(static_cast<size_t>(x) / 2 + 1, static_cast<size_t>(x) % 2));
          const int q = p[s * k * 2 + static_cast<size_t>(x)];
          s &= ~(1ULL << (x / 2));
          x = q;
        }
        out.insert(out.begin(), first);
      }
    }
    return out;
  }
  long long total(const std::vector<Chain>& t) const {
    long long s = 0;
    for (size_t i = 0; i < t.size(); ++i) {
      s += inside(t[i]) + cost(t[i].back(), t[(i + 1) % t.size()][0]);
    }
    return s;
  }
  std::vector<Chain> greedy(const std::vector<Chain>& ch) const {
    std::vector<Chain> left(ch.begin() + 1, ch.end()), tour{ch[0]};
    while (!left.empty()) {
      size_t best = 0;
      bool turn = false;
      long long bc = 1LL << 60;
      for (size_t i = 0; i < left.size(); ++i) {
        for (int o = 0; o < 2; ++o) {
          const Chain c = o ? turned(left[i]) : left[i];
          const long long v = cost(tour.back().back(), c[0]) + inside(c);
          if (v < bc) { bc = v; best = i; turn = o; }
        }
      }
      tour.push_back(turn ? turned(left[best]) : left[best]);
      left.erase(left.begin() + static_cast<long>(best));
    }
    long long now = total(tour);
    bool again = true;
    for (int pass = 0; again && pass < 20; ++pass) {
      again = false;
      for (size_t len = 1; len <= tour.size() / 2; ++len) {
        for (size_t i = 0; i + len <= tour.size(); ++i) {
          std::vector<Chain> rest(tour), run(tour.begin() + static_cast<long>(i), tour.begin() + static_cast<long>(i + len));
          rest.erase(rest.begin() + static_cast<long>(i), rest.begin() + static_cast<long>(i + len));
          for (int o = 0; o < 2; ++o) {
            for (size_t j = 0; j <= rest.size(); ++j) {
              std::vector<Chain> v(rest);
              v.insert(v.begin() + static_cast<long>(j), run.begin(), run.end());
              const long long c = total(v);
              if (c < now) { now = c; tour = v; again = true; }
            }
            std::reverse(run.begin(), run.end());
            for (auto& c : run) { c = turned(c); }
          }
        }
      }
    }
    return tour;
  }
  std::vector<long long> w_;
  RoutingIndexManager m_;
  std::function<long long int(long long int, long long int)> f_;
  Assignment a_;
};
}  // namespace operations_research
