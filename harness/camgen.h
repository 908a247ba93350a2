// Camera models by their published equations, calibrations shipped with the repository, and generators of calibrations and rays.
#ifndef VERIF_CAMGEN_H
#define VERIF_CAMGEN_H
#include "vmath.h"
#include "cam/CamEqui.h"
#include "cam/CamRadtan.h"
#include <memory>

namespace camgen {
using namespace vm;
// calibrations shipped with the repository: (equidistant?, fx fy cx cy d1..d4, width, height)
struct Cal {
  bool equi;
  double v[8];
  int w, h;
};
inline const std::vector<Cal> &shipped() {
  static const std::vector<Cal> v = {
    {false, {458.654, 457.296, 367.215, 248.375, -0.28340811, 0.07395907, 0.00019359, 1.76187114e-05}, 752, 480},
    {false, {816.9, 811.57, 608.5, 263.5, -5.61e-02, 1.395e-01, -1.2156e-03, -9.728e-04}, 1280, 560},
    {false, {470.05, 468.757, 405.81, 245.288, -0.292, 0.0875, 0.00095685, 2.346e-05}, 752, 480},
    {false, {416.85, 414.92, 421.02, 237.76, -0.04576, 0.034239, -0.0004014, 0.00043137}, 848, 480},
    {false, {380.0, 380.0, 320.0, 240.0, 0.0069, -0.0091, 0.00025, 0.00214}, 640, 480},
    {true, {276.485, 278.031, 314.58, 240.17, -0.0315, 0.07696, -0.06609, 0.01967}, 640, 480},
    {true, {282.02, 280.71, 415.96, 396.66, -0.00327, 0.05405, -0.05159, 0.01075}, 848, 800},
    {true, {190.978, 190.973, 254.93, 256.9, 0.00348, 0.000715, -0.00205, 0.0002029}, 512, 512},
    {true, {278.667, 278.488, 319.75, 241.97, -0.01372, 0.020727, -0.012786, 0.002524}, 640, 480},
    {true, {273.29, 273.358, 314.6, 250.99, 0.02786, -0.02772, 0.03752, -0.01718}, 640, 480},
  };
  return v;
}

inline Vector2d project(bool equi, const VectorXd &k, const Vector2d &n) {
  double x = n(0), y = n(1), r2 = x * x + y * y, xd, yd;
  if (!equi) {
    double rad = 1 + k(4) * r2 + k(5) * r2 * r2;
    xd = x * rad + 2 * k(6) * x * y + k(7) * (r2 + 2 * x * x);
    yd = y * rad + k(6) * (r2 + 2 * y * y) + 2 * k(7) * x * y;
  } else {
    double r = std::sqrt(r2), th = std::atan(r), t2 = th * th;
    double td = th * (1 + t2 * (k(4) + t2 * (k(5) + t2 * (k(6) + t2 * k(7)))));
    double s = r > 1e-9 ? td / r : 1.0;
    xd = s * x;
    yd = s * y;
  }
  return Vector2d(k(0) * xd + k(2), k(1) * yd + k(3));
}
// radial stretch d(distorted radius)/d(radius), to stay where the model is invertible
inline double stretch(bool equi, const VectorXd &k, double r) {
  if (!equi)
    return 1 + 3 * k(4) * r * r + 5 * k(5) * r * r * r * r;
  double th = std::atan(r);
  return 1 + 3 * k(4) * std::pow(th, 2) + 5 * k(5) * std::pow(th, 4) + 7 * k(6) * std::pow(th, 6) + 9 * k(7) * std::pow(th, 8);
}
inline VectorXd gen_calib(pbt::Tape &t, pbt::Ctx &c, bool &equi, int &w, int &h) {
  VectorXd k(8);
  if (t.flip(0.6)) {
    const Cal &s = t.pick(shipped());
    equi = s.equi;
    w = s.w;
    h = s.h;
    for (int i = 0; i < 8; i++)
      k(i) = s.v[i];
    if (t.flip(0.6)) { // nearby calibration, as an online estimate would move
      for (int i = 0; i < 4; i++)
        k(i) += t.sym(10);
      for (int i = 4; i < 8; i++)
        k(i) += t.sym(0.004);
    }
    c.label("calib:shipped");
  } else {
    equi = t.flip();
    w = t.range(320, 1920);
    h = t.range(240, 1200);
    double f = (equi ? 0.35 : 0.6) * w * t.real(0.8, 1.6);
    k(0) = f;
    k(1) = f * t.real(0.9, 1.1);
    k(2) = w * t.real(0.4, 0.6);
    k(3) = h * t.real(0.4, 0.6);
    if (!equi) {
      k(4) = t.sym(0.3);
      k(5) = t.sym(0.1);
      k(6) = t.sym(2e-3);
      k(7) = t.sym(2e-3);
    } else
      for (int i = 4; i < 8; i++)
        k(i) = t.sym(0.03);
    c.label("calib:random");
  }
  c.label(equi ? "fisheye" : "radtan");
  return k;
}
inline Vector2d gen_ray(pbt::Tape &t, pbt::Ctx &c, bool equi, const VectorXd &k) {
  double rmax = equi ? std::tan(1.2) : 1.25;
  // stay inside the invertible field of view
  double lim = 0;
  for (double r = 0; r <= rmax; r += 0.02) {
    if (stretch(equi, k, r) < (equi ? 0.5 : 0.25))
      break;
    // a lens image radius beyond a quarter turn is outside what a fisheye calibration covers
    if (equi && (project(equi, k, Vector2d(r, 0))(0) - k(2)) / k(0) > 1.55)
      break;
    lim = r;
  }
  double r;
  switch (t.range(0, 5)) {
  default: {
    double th = t.real(0, std::atan(lim));
    r = std::tan(th);
    break;
  }
  case 3:
    r = t.logreal(1e-12, 1e-2) * std::min(1.0, lim);
    c.label("ray:near-centre");
    break;
  case 4:
    r = 0;
    c.label("ray:centre");
    break;
  case 5:
    r = lim * t.real(0.9, 1.0);
    c.label("ray:border");
    break;
  }
  double a = t.real(0, 2 * M_PI);
  if (t.flip(0.15))
    a = M_PI_2 * t.range(0, 3);
  return Vector2d(r * std::cos(a), r * std::sin(a));
}
inline std::shared_ptr<ov_core::CamBase> make(bool equi, int w, int h) {
  if (equi)
    return std::make_shared<ov_core::CamEqui>(w, h);
  return std::make_shared<ov_core::CamRadtan>(w, h);
}

} // namespace camgen
#endif
