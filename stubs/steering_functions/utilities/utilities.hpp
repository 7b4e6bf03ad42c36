#pragma once
#include <cmath>
#include <vector>
template <class A> inline A max(A a, A b) { return a < b ? b : a; }
template <class A> inline A min(A a, A b) { return b < a ? b : a; }
// End of a clothoid: curvature kappa_i + direction * sigma * s, integrated
// numerically (Simpson), as the original documents it.
inline void end_of_clothoid(double x_i, double y_i, double theta_i,
    double kappa_i, double sigma, double direction, double length,
    double* x_f, double* y_f, double* theta_f, double* kappa_f) {
  const int n = 2000;
  const double h = length / n;
  auto th = [&](double s) {
    return theta_i + kappa_i * direction * s + 0.5 * sigma * direction * s * s;
  };
  double x = 0, y = 0;
  for (int i = 0; i <= n; ++i) {
    const double w = (i == 0 || i == n) ? 1 : (i % 2 ? 4 : 2);
    x += w * std::cos(th(i * h));
    y += w * std::sin(th(i * h));
  }
  *x_f = x_i + direction * x * h / 3;
  *y_f = y_i + direction * y * h / 3;
  *theta_f = th(length);
  *kappa_f = kappa_i + sigma * length;
}
