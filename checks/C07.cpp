// C07: rotation and rigid-motion algebra against long-double series and matrix identities.
#include "pbt.h"
#include "vmath.h"
#include "utils/quat_ops.h"
using namespace vm;
using namespace ov_core;

static Vector4d gen_quat(pbt::Tape &t, pbt::Ctx &c, Matrix3d &C) {
  Vector3d w = gen_rotvec(t, &c);
  double th = w.norm();
  Vector3d k = th > 0 ? Vector3d(w / th) : Vector3d::UnitX();
  Vector4d q;
  q << std::sin(th / 2) * k, std::cos(th / 2);
  q.normalize();
  if (t.flip(0.3)) {
    q = -q;
    c.label("negated-quaternion");
  }
  C = expR(-w);
  return q;
}
static void note(pbt::Ctx &c, const std::string &s) {
  if (c.want_sample)
    c.sample << s;
}

PBT_PART(quat_matrix, 32, 400000, 6000000) {
  Matrix3d C, D;
  Vector4d q = gen_quat(t, c, C), p = gen_quat(t, c, D);
  c.nontrivial(rdist(C, Matrix3d::Identity()) > 1e-9);
  note(c, "q=" + str(q) + " p=" + str(p));
  pbt::near_mat(c, quat_2_Rot(q), C, 1e-13, "matrix of quaternion");
  Vector4d q2 = rot_2_quat(C);
  pbt::near(c, q2.norm(), 1.0, 1e-12, "norm of quaternion from matrix");
  REQUIRE(q2(3) >= 0, "scalar part of quaternion from matrix is negative: " << q2.transpose());
  pbt::near_mat(c, jplR(q2), C, 1e-11, "quaternion from matrix");
  // composition
  Vector4d qp = quat_multiply(q, p);
  pbt::near(c, qp.norm(), 1.0, 1e-13, "norm of product");
  REQUIRE(qp(3) >= 0, "scalar part of a product is negative");
  pbt::near_mat(c, jplR(qp), Matrix3d(C * D), 1e-12, "product of quaternions");
  pbt::near_mat(c, jplR(Inv(q)), Matrix3d(C.transpose()), 1e-12, "inverse quaternion");
  Vector4d e = quat_multiply(q, Inv(q));
  pbt::near_mat(c, e, Vector4d(0, 0, 0, 1), 1e-12, "q times its inverse");
  // normalisation keeps the rotation and the canonical sign
  double s = t.logreal(0.1, 10.0);
  Vector4d qn = quatnorm(Vector4d(s * q));
  pbt::near(c, qn.norm(), 1.0, 1e-13, "norm after normalisation");
  REQUIRE(qn(3) >= 0, "scalar part negative after normalisation");
  pbt::near_mat(c, jplR(qn), C, 1e-12, "normalised quaternion");
}

PBT_PART(exp_log_so3, 32, 400000, 6000000) {
  double a = gen_angle(t, &c);
  if (t.flip(0.1))
    a = t.real(0, 3 * M_PI); // beyond the principal domain
  Vector3d w = a * gen_dir(t);
  c.nontrivial(a > 0);
  note(c, "w=" + str(w));
  Matrix3d R = exp_so3(w), Rr = expR(w);
  pbt::near_mat(c, R, Rr, 1e-13, "exponential");
  pbt::near_mat(c, Matrix3d(R * R.transpose()), Matrix3d(Matrix3d::Identity()), 1e-13, "exponential orthonormal");
  Vector3d l = log_so3(Rr);
  REQUIRE(l.allFinite(), "log not finite for w=" << w.transpose());
  REQUIRE(l.norm() <= M_PI + 1e-6, "log longer than pi: " << l.norm());
  if (Rr.trace() + 1.0 < 1e-9) {
    // half-turn: documented branch returns exactly pi about the axis
    c.label("half-turn");
    // within 1e-5 rad of the half turn the axis is read off one column, which is coarse when that column is short
    double m = 1 + Rr(2, 2) > 0.9e-5 ? 1 + Rr(2, 2) : (1 + Rr(1, 1) > 0.9e-5 ? 1 + Rr(1, 1) : 1 + Rr(0, 0));
    pbt::near_mat(c, expR(l), Rr, 1e-4 / std::sqrt(m), "exp(log) at a half turn");
  } else {
    // the arc-cosine form loses digits quadratically as the half turn is approached
    double gap = M_PI - logR(Rr).norm();
    double tol = 1e-10 + 1e-14 / (gap * gap);
    pbt::near_mat(c, expR(l), Rr, tol, "exp(log)");
    if (a < M_PI - 2e-5)
      pbt::near_mat(c, l, w, tol, "log(exp)");
    if (a < 1e-3)
      pbt::near_mat(c, l, w, 1e-12, "log(exp) small");
  }
}

PBT_PART(se3, 48, 200000, 4000000) {
  Vector3d w = gen_rotvec(t, &c), u = gen_vec(t, 20.0);
  Eigen::Matrix<double, 6, 1> v;
  v << w, u;
  c.nontrivial(w.norm() > 0);
  note(c, "v=" + str(v));
  Matrix4d T = exp_se3(v), Tr = Matrix4d::Identity();
  Tr.block(0, 0, 3, 3) = expR(w);
  Tr.block(0, 3, 3, 1) = Jleft(w) * u;
  // (1-cos)/theta^2 cancels as 1e-16/theta for small angles; that is far below any use, and is allowed for
  pbt::near_mat(c, T, Tr, 1e-12 + (1e-12 + 5e-16 / std::max(w.norm(), 1e-7)) * u.norm(), "rigid exponential");
  // hat: exponential of the matrix itself by scaling and squaring
  Eigen::Matrix<long double, 4, 4> A = hat_se3(v).cast<long double>() / 4096.0L, E = Eigen::Matrix<long double, 4, 4>::Identity(), term = E;
  for (int k = 1; k < 20; k++) {
    term = term * A / (long double)k;
    E += term;
  }
  for (int k = 0; k < 12; k++)
    E = E * E;
  pbt::near_mat(c, E.cast<double>(), Tr, 1e-10, "hat operator");
  if (w.norm() < M_PI - 1e-3) {
    Eigen::Matrix<double, 6, 1> l = log_se3(Tr);
    pbt::near_mat(c, l, v, 1e-8 + 1e-12 / std::pow(M_PI - w.norm(), 2), "rigid log(exp)");
  } else {
    c.label("rigid log near half-turn");
    Eigen::Matrix<double, 6, 1> l = log_se3(Tr);
    REQUIRE(l.allFinite(), "rigid log not finite");
    Matrix4d B = Matrix4d::Identity();
    B.block(0, 0, 3, 3) = expR(l.head(3));
    B.block(0, 3, 3, 1) = Jleft(l.head(3)) * l.tail(3);
    pbt::near_mat(c, B, Tr, 3e-3, "rigid exp(log) near half turn");
  }
  Eigen::Matrix4d Ti = Inv_se3(Tr);
  pbt::near_mat(c, Matrix4d(Tr * Ti), Matrix4d(Matrix4d::Identity()), 1e-12, "rigid inverse (right)");
  pbt::near_mat(c, Matrix4d(Ti * Tr), Matrix4d(Matrix4d::Identity()), 1e-12, "rigid inverse (left)");
}

PBT_PART(jacobians, 32, 250000, 4000000) {
  double a = gen_angle(t, &c);
  if (t.flip(0.1))
    a = t.real(0, 2.5 * M_PI);
  Vector3d w = a * gen_dir(t);
  c.nontrivial(a > 0);
  note(c, "w=" + str(w));
  Matrix3d Jl = Jl_so3(w), Jr = Jr_so3(w);
  double tol = a < 2e-6 ? 1e-6 : 1e-9;
  pbt::near_mat(c, Jl, Jleft(w), tol, "left Jacobian");
  pbt::near_mat(c, Jr, Jleft(Vector3d(-w)), tol, "right Jacobian");
  // definition: exp(w+d) = exp(Jl d) exp(w) = exp(w) exp(Jr d) to first order
  Vector3d d = 1e-5 * gen_dir(t);
  Vector3d dl = logR(expR(Vector3d(w + d)) * expR(w).transpose()), dr = logR(expR(w).transpose() * expR(Vector3d(w + d)));
  pbt::near_mat(c, Vector3d(Jl * d), dl, 3e-10, "left Jacobian definition");
  pbt::near_mat(c, Vector3d(Jr * d), dr, 3e-10, "right Jacobian definition");
}

PBT_PART(rates_and_skew, 48, 150000, 3000000) {
  Vector3d w = gen_vec(t, 5), v = gen_vec(t, 5);
  Matrix3d C;
  Vector4d q = gen_quat(t, c, C);
  c.nontrivial(w.norm() > 1e-6);
  note(c, "w=" + str(w) + " q=" + str(q));
  pbt::near_mat(c, Vector3d(skew_x(w) * v), Vector3d(w.cross(v)), 1e-12, "skew is cross product");
  pbt::near_mat(c, vee(skew_x(w)), w, 0 + 1e-300, "vee(skew)");
  pbt::near_mat(c, Matrix3d(skew_x(w) + skew_x(w).transpose()), Matrix3d(Matrix3d::Zero()), 1e-300, "skew antisymmetric");
  // qdot = 1/2 Omega(w) q must give d/dt C(q) = -[w x] C(q)
  Vector4d qd = 0.5 * Omega(w) * q;
  pbt::near(c, qd.dot(q), 0.0, 1e-12, "rate preserves the norm");
  double h = 1e-5;
  Vector4d qp = q + h * qd, qm = q - h * qd;
  Matrix3d dC = (jplR(qp / qp.norm()) - jplR(qm / qm.norm())) / (2 * h);
  pbt::near_mat(c, dC, Matrix3d(-skew(w) * C), 1e-6, "rotation rate operator");
}

PBT_PART(euler, 32, 250000, 4000000) {
  double r = t.sym(M_PI), p = t.sym(M_PI_2), y = t.sym(M_PI);
  int cls = t.range(0, 5);
  if (cls == 4) {
    p = (t.flip() ? -1 : 1) * (M_PI_2 - t.logreal(1e-9, 1e-2));
    c.label("near-gimbal");
  }
  bool lock = cls == 5;
  // single-axis rotations against the exponential
  pbt::near_mat(c, rot_x(r), expR(Vector3d(r, 0, 0)), 1e-13, "rot_x");
  pbt::near_mat(c, rot_y(p), expR(Vector3d(0, p, 0)), 1e-13, "rot_y");
  pbt::near_mat(c, rot_z(y), expR(Vector3d(0, 0, y)), 1e-13, "rot_z");
  Matrix3d R = expR(Vector3d(0, 0, y)) * expR(Vector3d(0, p, 0)) * expR(Vector3d(r, 0, 0));
  if (lock) {
    c.label("gimbal-lock");
    double sgn = t.flip() ? -1 : 1;
    // exact lock: pitch = +-90 degrees
    Matrix3d Ry;
    Ry << 0, 0, sgn, 0, 1, 0, -sgn, 0, 0;
    R = Ry * expR(Vector3d(r, 0, 0));
    R(0, 0) = 0;
    R(1, 0) = 0;
    p = sgn * M_PI_2;
  }
  c.nontrivial(true);
  note(c, "r=" + std::to_string(r) + " p=" + std::to_string(p) + " y=" + std::to_string(y));
  Vector3d e = rot2rpy(R);
  REQUIRE(e.allFinite(), "Euler angles not finite");
  Matrix3d R2 = expR(Vector3d(0, 0, e(2))) * expR(Vector3d(0, e(1), 0)) * expR(Vector3d(e(0), 0, 0));
  double cp = std::fabs(std::cos(p));
  pbt::near_mat(c, R2, R, lock ? 1e-9 : 1e-10 + 1e-14 / std::max(cp, 1e-12), "rotation from Euler angles");
  if (!lock && cp > 1e-3) {
    pbt::near(c, e(1), p, 1e-9, "pitch");
    pbt::near(c, std::remainder(e(0) - r, 2 * M_PI), 0, 1e-9, "roll");
    pbt::near(c, std::remainder(e(2) - y, 2 * M_PI), 0, 1e-9, "yaw");
  }
}
