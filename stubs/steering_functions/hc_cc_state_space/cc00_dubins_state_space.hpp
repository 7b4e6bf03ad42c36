#pragma once
// Stand-in: the Dubins curve with its curvature reduced, as a bounded change
// of curvature would reduce it.
#include "steering_functions/dubins_state_space/dubins_state_space.hpp"

class CC00_Dubins_State_Space : public Dubins_State_Space {
 public:
  CC00_Dubins_State_Space(double kappa, double sigma, double discretization,
      bool forwards) : Dubins_State_Space(
        kappa * sigma / (kappa * kappa + sigma), discretization, forwards) {}
};
