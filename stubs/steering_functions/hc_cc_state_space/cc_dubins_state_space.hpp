#pragma once
// Stand-in: as CC00_Dubins_State_Space, with less curvature still when an end
// is already curved.
#include <cmath>
#include <vector>
#include "steering_functions/dubins_state_space/dubins_state_space.hpp"

class CC_Dubins_State_Space {
 public:
  CC_Dubins_State_Space(double kappa, double sigma, double discretization,
      bool forwards) : k_(kappa * sigma / (kappa * kappa + sigma)),
      ds_(discretization), f_(forwards) {}
  std::vector<steer::Control> get_controls(const steer::State& a,
      const steer::State& b) const {
    return at(a, b).get_controls(a, b);
  }
  std::vector<steer::State> get_path(const steer::State& a,
      const steer::State& b) const {
    return at(a, b).get_path(a, b);
  }

 private:
  Dubins_State_Space at(const steer::State& a, const steer::State& b) const {
    return Dubins_State_Space(
        k_ / (1 + std::fabs(a.kappa) + 0.5 * std::fabs(b.kappa)), ds_, f_);
  }
  double k_, ds_;
  bool f_;
};
