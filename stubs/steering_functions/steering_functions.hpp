#pragma once
namespace steer {
// What the caller leaves unset is not a number here.
const double kUnset = __builtin_nan("");
struct State {
  double x = kUnset, y = kUnset, theta = kUnset, kappa = kUnset, d = kUnset;
};
struct Control { double delta_s, kappa, sigma; };
}
