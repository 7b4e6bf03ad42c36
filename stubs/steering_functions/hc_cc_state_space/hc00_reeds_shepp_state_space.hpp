#pragma once
// Stand-in: the curve of Reeds_Shepp_State_Space with its curvature reduced,
// as a bounded change of curvature would reduce it.
#include <cmath>
#include "steering_functions/reeds_shepp_state_space/reeds_shepp_state_space.hpp"

class HC00_Reeds_Shepp_State_Space : public Reeds_Shepp_State_Space {
 public:
  HC00_Reeds_Shepp_State_Space(double kappa, double sigma,
      double discretization) : Reeds_Shepp_State_Space(
        kappa * sigma / (kappa * kappa + sigma), discretization) {}
};
