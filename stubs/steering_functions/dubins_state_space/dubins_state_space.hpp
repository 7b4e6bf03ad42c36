#pragma once
// A plain Dubins solver with the interface that /repo uses.
#include <cmath>
#include <limits>
#include <vector>
#include "steering_functions/steering_functions.hpp"

class Dubins_State_Space {
 public:
  Dubins_State_Space(double kappa, double discretization, bool forwards)
    : k_(kappa), ds_(discretization) { (void)forwards; }

  std::vector<steer::Control> get_controls(const steer::State& a,
      const steer::State& b) const {
    const double PI = 3.14159265358979323846, T = 2 * PI;
    auto m = [T](double v) { v = std::fmod(v, T); return v < 0 ? v + T : v; };
    const double dx = (b.x - a.x) * k_, dy = (b.y - a.y) * k_;
    const double D = std::hypot(dx, dy), th = std::atan2(dy, dx);
    const double al = m(a.theta - th), be = m(b.theta - th);
    double best = std::numeric_limits<double>::infinity();
    double seg[3] = {0, 0, 0};
    int typ[3] = {0, 0, 0};
    auto z = [T](double v) { return v > T - 1e-9 ? 0.0 : v; };
    auto keep = [&](double t, double p, double q, int A, int B, int C) {
      t = z(m(t)); q = z(m(q));
      if (B != 0) { p = m(p); }
      if (t + p + q < best - 1e-12) {
        best = t + p + q;
        seg[0] = t; seg[1] = p; seg[2] = q;
        typ[0] = A; typ[1] = B; typ[2] = C;
      }
    };
    const double sa = std::sin(al), sb = std::sin(be);
    const double ca = std::cos(al), cb = std::cos(be), cab = std::cos(al - be);
    double p2 = 2 + D * D - 2 * cab + 2 * D * (sa - sb);
    if (p2 >= 0) {
      const double u = std::atan2(cb - ca, D + sa - sb);
      keep(u - al, std::sqrt(p2), be - u, 1, 0, 1);
    }
    p2 = 2 + D * D - 2 * cab + 2 * D * (sb - sa);
    if (p2 >= 0) {
      const double u = std::atan2(ca - cb, D - sa + sb);
      keep(al - u, std::sqrt(p2), u - be, -1, 0, -1);
    }
    p2 = D * D - 2 + 2 * cab + 2 * D * (sa + sb);
    if (p2 >= 0) {
      const double p = std::sqrt(p2);
      const double u = std::atan2(-ca - cb, D + sa + sb) - std::atan2(-2.0, p);
      keep(u - al, p, u - be, 1, 0, -1);
    }
    p2 = D * D - 2 + 2 * cab - 2 * D * (sa + sb);
    if (p2 >= 0) {
      const double p = std::sqrt(p2);
      const double u = std::atan2(ca + cb, D - sa - sb) - std::atan2(2.0, p);
      keep(al - u, p, be - u, -1, 0, 1);
    }
    double c = (6 - D * D + 2 * cab + 2 * D * (sa - sb)) / 8;
    if (std::fabs(c) <= 1) {
      const double p = T - std::acos(c);
      const double t = al - std::atan2(ca - cb, D - sa + sb) + p / 2;
      keep(t, p, al - be - t + p, -1, 1, -1);
    }
    c = (6 - D * D + 2 * cab + 2 * D * (sb - sa)) / 8;
    if (std::fabs(c) <= 1) {
      const double p = T - std::acos(c);
      const double t = -al + std::atan2(-ca + cb, D + sa - sb) + p / 2;
      keep(t, p, be - al - t + p, 1, -1, 1);
    }
    std::vector<steer::Control> r;
    for (int i = 0; i < 3; ++i) {
      r.push_back({seg[i] / k_, typ[i] * k_, 0.0});
    }
    return r;
  }

  std::vector<steer::State> get_path(const steer::State& a,
      const steer::State& b) const {
    std::vector<steer::State> r;
    steer::State s = a;
    s.d = 1;
    r.push_back(s);
    for (auto&& c : get_controls(a, b)) {
      const steer::State s0 = s;
      const int n = std::max(1, static_cast<int>(std::ceil(c.delta_s / ds_)));
      if (c.delta_s <= 1e-12) { continue; }
      for (int i = 1; i <= n; ++i) {
        const double l = c.delta_s * i / n;
        if (c.kappa == 0) {
          s.x = s0.x + l * std::cos(s0.theta);
          s.y = s0.y + l * std::sin(s0.theta);
        } else {
          s.theta = s0.theta + l * c.kappa;
          s.x = s0.x + (std::sin(s.theta) - std::sin(s0.theta)) / c.kappa;
          s.y = s0.y - (std::cos(s.theta) - std::cos(s0.theta)) / c.kappa;
        }
        s.kappa = c.kappa;
        s.d = 1;
        r.push_back(s);
      }
    }
    return r;
  }

 private:
  double k_, ds_;
};
