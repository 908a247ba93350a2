// Independent trajectory alignment (Horn's quaternion method) used as reference for the evaluation tools.
#ifndef VERIF_TRAJMATH_H
#define VERIF_TRAJMATH_H
#include "vmath.h"
namespace tm_ {
using namespace vm;
typedef Eigen::Matrix<double, 7, 1> Pose; // p, q (x y z w, JPL global to body)
inline Pose mk(const Vector3d &p, const Matrix3d &R_GtoI) {
  Pose x;
  x << p, jplq(R_GtoI);
  return x;
}
inline Matrix3d RGtoI(const Pose &x) {
  Vector4d q = x.tail(4);
  return jplR(q / q.norm());
}
inline Matrix3d Rz(double a) {
  Matrix3d R;
  R << std::cos(a), -std::sin(a), 0, std::sin(a), std::cos(a), 0, 0, 0, 1;
  return R;
}
struct Sim {
  Matrix3d R = Matrix3d::Identity();
  Vector3d t = Vector3d::Zero();
  double s = 1;
  double margin = 1; ///< how well determined the rotation is (relative gap)
};
inline double cost(const Sim &T, const std::vector<Vector3d> &a, const std::vector<Vector3d> &b) {
  double c = 0;
  for (size_t i = 0; i < a.size(); i++)
    c += (b[i] - T.s * T.R * a[i] - T.t).squaredNorm();
  return c;
}
/// best transform taking a to b; yaw: rotation about z only; scale: free scale
inline Sim align(const std::vector<Vector3d> &a, const std::vector<Vector3d> &b, bool yaw, bool scale) {
  Vector3d ma = Vector3d::Zero(), mb = Vector3d::Zero();
  for (size_t i = 0; i < a.size(); i++) {
    ma += a[i];
    mb += b[i];
  }
  ma /= a.size();
  mb /= a.size();
  Matrix3d S = Matrix3d::Zero(); // sum a b^T
  double va = 0, vb = 0;
  for (size_t i = 0; i < a.size(); i++) {
    S += (a[i] - ma) * (b[i] - mb).transpose();
    va += (a[i] - ma).squaredNorm();
    vb += (b[i] - mb).squaredNorm();
  }
  Sim T;
  double ref = std::sqrt(va * vb) + 1e-300;
  if (yaw) {
    double A = S(0, 1) - S(1, 0), B = S(0, 0) + S(1, 1);
    T.R = Rz(std::atan2(A, B));
    T.margin = std::hypot(A, B) / ref;
  } else {
    Matrix4d N;
    N << S(0, 0) + S(1, 1) + S(2, 2), S(1, 2) - S(2, 1), S(2, 0) - S(0, 2), S(0, 1) - S(1, 0), S(1, 2) - S(2, 1), S(0, 0) - S(1, 1) - S(2, 2),
        S(0, 1) + S(1, 0), S(2, 0) + S(0, 2), S(2, 0) - S(0, 2), S(0, 1) + S(1, 0), -S(0, 0) + S(1, 1) - S(2, 2), S(1, 2) + S(2, 1), S(0, 1) - S(1, 0),
        S(2, 0) + S(0, 2), S(1, 2) + S(2, 1), -S(0, 0) - S(1, 1) + S(2, 2);
    Eigen::SelfAdjointEigenSolver<Matrix4d> es(N);
    Vector4d q = es.eigenvectors().col(3);
    T.R = Eigen::Quaterniond(q(0), q(1), q(2), q(3)).normalized().toRotationMatrix();
    T.margin = (es.eigenvalues()(3) - es.eigenvalues()(2)) / ref;
  }
  if (scale)
    T.s = (T.R * S).trace() / (va + 1e-300);
  T.t = mb - T.s * T.R * ma;
  return T;
}
inline Sim align_method(const std::string &m, const std::vector<Pose> &e, const std::vector<Pose> &g) {
  std::vector<Vector3d> a, b;
  for (size_t i = 0; i < e.size(); i++) {
    a.push_back(e[i].head(3));
    b.push_back(g[i].head(3));
  }
  Sim T;
  if (m == "none")
    return T;
  if (m == "posyaw")
    return align(a, b, true, false);
  if (m == "se3")
    return align(a, b, false, false);
  if (m == "sim3")
    return align(a, b, false, true);
  Matrix3d Re = RGtoI(e[0]).transpose(), Rg = RGtoI(g[0]).transpose(); // body to world
  if (m == "se3single")
    T.R = Rg * Re.transpose();
  else { // best yaw in the Frobenius sense
    Matrix3d D = Rg * Re.transpose();
    double A = D(1, 0) - D(0, 1), B = D(0, 0) + D(1, 1);
    T.R = Rz(std::atan2(A, B));
    T.margin = std::hypot(A, B);
  }
  T.t = b[0] - T.R * a[0];
  return T;
}
} // namespace tm_
#endif
