#pragma once
// Stand-in: the shorter of the Dubins curve driven forwards and the one driven
// backwards, with the interface of the real solver.
#include <algorithm>
#include <cmath>
#include <vector>
#include "steering_functions/dubins_state_space/dubins_state_space.hpp"

class Reeds_Shepp_State_Space {
 public:
  Reeds_Shepp_State_Space(double kappa, double discretization)
    : ss_(kappa, discretization, true) {}

  std::vector<steer::Control> get_controls(const steer::State& a,
      const steer::State& b) const {
    auto fwd = ss_.get_controls(a, b), bwd = ss_.get_controls(b, a);
    if (length(fwd) <= length(bwd)) { return fwd; }
    std::reverse(bwd.begin(), bwd.end());
    for (auto&& c : bwd) { c.delta_s = -c.delta_s; }
    return bwd;
  }
  std::vector<steer::State> get_path(const steer::State& a,
      const steer::State& b) const {
    if (length(ss_.get_controls(a, b)) <= length(ss_.get_controls(b, a))) {
      return ss_.get_path(a, b);
    }
    auto r = ss_.get_path(b, a);
    std::reverse(r.begin(), r.end());
    for (auto&& s : r) { s.d = -1; }
    return r;
  }

 private:
  static double length(const std::vector<steer::Control>& c) {
    double s = 0;
    for (auto&& x : c) { s += std::fabs(x.delta_s); }
    return s;
  }
  Dubins_State_Space ss_;
};
