// Reference mathematics written independently of the code under test, and generators of geometric values.
#ifndef VERIF_VMATH_H
#define VERIF_VMATH_H
#include "pbt.h"
#include <Eigen/Dense>
#include <functional>

namespace vm {
using Eigen::Matrix3d;
using Eigen::Matrix4d;
using Eigen::MatrixXd;
using Eigen::Vector2d;
using Eigen::Vector3d;
using Eigen::Vector4d;
using Eigen::VectorXd;
typedef Eigen::Matrix<long double, 3, 3> M3L;
typedef Eigen::Matrix<long double, 3, 1> V3L;

inline Matrix3d skew(const Vector3d &w) {
  Matrix3d s;
  s << 0, -w(2), w(1), w(2), 0, -w(0), -w(1), w(0), 0;
  return s;
}
inline M3L skewL(const V3L &w) {
  M3L s;
  s << 0, -w(2), w(1), w(2), 0, -w(0), -w(1), w(0), 0;
  return s;
}
// series of sum_k [w x]^k / (k+s)! with range reduction left to the caller (|w| up to ~ 10 is fine in long double)
inline M3L seriesL(const V3L &w, int s) {
  M3L W = skewL(w), term = M3L::Identity(), sum = M3L::Zero();
  long double f = 1;
  for (int i = 2; i <= s; i++)
    f *= i;
  for (int k = 0; k < 80; k++) {
    sum += term / f;
    term = term * W;
    f *= (k + 1 + s);
  }
  return sum;
}
inline Matrix3d expR(const Vector3d &w) { return seriesL(w.cast<long double>(), 0).cast<double>(); }
inline Matrix3d Jleft(const Vector3d &w) { return seriesL(w.cast<long double>(), 1).cast<double>(); }
/// rotation vector of R (any angle up to pi), via quaternion extraction in long double
inline Vector3d logR(const Matrix3d &R) {
  Eigen::Quaternion<long double> q(R.cast<long double>());
  q.normalize();
  long double n = q.vec().norm(), w = q.w();
  if (w < 0) {
    w = -w;
    q.vec() = -q.vec();
  }
  if (n < 1e-15L)
    return (2.0L * q.vec()).cast<double>();
  return (2.0L * std::atan2(n, w) / n * q.vec()).cast<double>();
}
/// JPL quaternion (x,y,z,w) of a rotation matrix: C(q) = exp(-[k th])
inline Vector4d jplq(const Matrix3d &C) {
  Vector3d w = logR(C.transpose());
  double th = w.norm();
  Vector4d q;
  if (th < 1e-12)
    q << 0.5 * w, 1.0;
  else
    q << std::sin(th / 2) / th * w, std::cos(th / 2);
  return q / q.norm();
}
/// textbook JPL rotation matrix
inline Matrix3d jplR(const Vector4d &q) {
  Vector3d v = q.head(3);
  Matrix3d R = (2 * q(3) * q(3) - 1) * Matrix3d::Identity() - 2 * q(3) * skew(v) + 2 * v * v.transpose();
  return R;
}
/// angle between two rotations
inline double rdist(const Matrix3d &A, const Matrix3d &B) { return logR(A * B.transpose()).norm(); }

inline Vector3d gen_dir(pbt::Tape &t) {
  // 0 -> x axis
  switch (t.range(0, 4)) {
  case 1:
    return Vector3d::UnitY();
  case 2:
    return Vector3d::UnitZ();
  case 3:
    return -Vector3d::UnitX();
  case 0: {
    double z = t.sym(1.0), a = t.real(0, 2 * M_PI);
    double r = std::sqrt(std::max(0.0, 1 - z * z));
    return Vector3d(r * std::cos(a), r * std::sin(a), z);
  }
  default: {
    Vector3d v(t.sym(1), t.sym(1), t.sym(1));
    if (v.norm() < 1e-3)
      return Vector3d::UnitX();
    return v.normalized();
  }
  }
}
/// angle classes: ordinary, tiny, near pi, quarter turns
inline double gen_angle(pbt::Tape &t, pbt::Ctx *c = nullptr) {
  switch (t.range(0, 5)) {
  default:
    return t.real(0, M_PI);
  case 3:
    if (c)
      c->label("angle:tiny");
    return t.logreal(1e-12, 1e-2);
  case 4:
    if (c)
      c->label("angle:near-pi");
    return M_PI - t.logreal(1e-12, 1e-2);
  case 5:
    if (c)
      c->label("angle:quarter");
    return M_PI_2 * t.range(0, 2);
  }
}
inline Vector3d gen_rotvec(pbt::Tape &t, pbt::Ctx *c = nullptr) {
  double a = gen_angle(t, c);
  return a * gen_dir(t);
}
inline Matrix3d gen_rot(pbt::Tape &t, pbt::Ctx *c = nullptr) { return expR(gen_rotvec(t, c)); }
inline Vector3d gen_vec(pbt::Tape &t, double m) { return Vector3d(t.sym(m), t.sym(m), t.sym(m)); }
inline MatrixXd gen_mat(pbt::Tape &t, int r, int c, double m = 1.0) {
  MatrixXd M(r, c);
  for (int i = 0; i < r; i++)
    for (int j = 0; j < c; j++)
      M(i, j) = t.sym(m);
  return M;
}
/// random symmetric positive definite matrix with log-uniform spread of scales
inline MatrixXd gen_spd(pbt::Tape &t, int n, double smin, double smax) {
  MatrixXd A(n, n);
  VectorXd s(n);
  for (int i = 0; i < n; i++)
    s(i) = t.logreal(smin, smax);
  for (int i = 0; i < n; i++)
    for (int j = 0; j < n; j++)
      A(i, j) = t.sym(1.0);
  MatrixXd M = A * A.transpose() / n + 0.05 * MatrixXd::Identity(n, n);
  MatrixXd P = s.asDiagonal() * M * s.asDiagonal();
  return 0.5 * (P + P.transpose());
}
/// central-difference Jacobian with Richardson extrapolation (O(h^4))
template <typename F> MatrixXd numdiff(F f, int nin, int nout, double h) {
  MatrixXd J(nout, nin);
  for (int i = 0; i < nin; i++) {
    VectorXd d = VectorXd::Zero(nin);
    d(i) = h;
    VectorXd a1 = (f(d) - f(-d)) / (2 * h);
    d(i) = 2 * h;
    VectorXd a2 = (f(d) - f(-d)) / (4 * h);
    J.col(i) = (4 * a1 - a2) / 3;
  }
  return J;
}
template <typename M> std::string str(const M &m) {
  std::ostringstream os;
  os.precision(5);
  if (m.cols() == 1)
    os << "(" << m.transpose() << ")";
  else
    os << "[" << m << "]";
  std::string s = os.str();
  for (auto &ch : s)
    if (ch == '\n')
      ch = ';';
  return s;
}
} // namespace vm
#endif
