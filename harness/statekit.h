// Builds filter states with generated options and contents, and reads them back without touching private members.
#ifndef VERIF_STATEKIT_H
#define VERIF_STATEKIT_H
#include "camgen.h"
#include "state/State.h"
#include "state/StateHelper.h"
#include "types/Landmark.h"
#include "utils/print.h"
#include <random>

namespace sk {
using namespace vm;
typedef std::shared_ptr<ov_type::Type> TypePtr;
typedef std::shared_ptr<ov_msckf::State> StatePtr;

/// contents of matrices come from one word of the tape
struct Rng {
  std::mt19937_64 g;
  explicit Rng(uint64_t s) : g(s * 0x9E3779B97F4A7C15ull + 12345) {}
  double sym(double m = 1) { return m * std::uniform_real_distribution<double>(-1, 1)(g); }
  double gauss() { return std::normal_distribution<double>(0, 1)(g); }
  MatrixXd mat(int r, int c, double m = 1) {
    MatrixXd M(r, c);
    for (int j = 0; j < c; j++)
      for (int i = 0; i < r; i++)
        M(i, j) = sym(m);
    return M;
  }
  VectorXd gvec(int n) {
    VectorXd v(n);
    for (int i = 0; i < n; i++)
      v(i) = gauss();
    return v;
  }
  /// correlated covariance with the given standard deviations
  MatrixXd cov(const VectorXd &sd) {
    int n = (int)sd.size();
    MatrixXd A = mat(n, n), C = A * A.transpose() / n + 0.3 * MatrixXd::Identity(n, n);
    MatrixXd P = sd.asDiagonal() * C * sd.asDiagonal();
    return 0.5 * (P + P.transpose());
  }
};

inline ov_msckf::StateOptions gen_options(pbt::Tape &t) {
  ov_msckf::StateOptions o;
  o.do_fej = t.flip();
  o.num_cameras = t.range(1, 3);
  o.do_calib_camera_timeoffset = t.flip();
  o.do_calib_camera_pose = t.flip();
  o.do_calib_camera_intrinsics = t.flip();
  o.do_calib_imu_intrinsics = t.flip();
  o.do_calib_imu_g_sensitivity = o.do_calib_imu_intrinsics && t.flip();
  o.imu_model = t.flip() ? ov_msckf::StateOptions::ImuModel::RPNG : ov_msckf::StateOptions::ImuModel::KALIBR;
  static const std::vector<ov_msckf::StateOptions::IntegrationMethod> im{ov_msckf::StateOptions::RK4, ov_msckf::StateOptions::DISCRETE, ov_msckf::StateOptions::ANALYTICAL};
  o.integration_method = t.pick(im);
  o.max_clone_size = t.range(1, 6);
  o.max_aruco_features = t.flip(0.3) ? t.range(0, 3) : 1024;
  return o;
}
/// every top-level variable a fresh state holds, in the documented order
inline std::vector<TypePtr> fresh_variables(const StatePtr &s) {
  std::vector<TypePtr> v{s->_imu};
  auto &o = s->_options;
  if (o.do_calib_imu_intrinsics) {
    v.push_back(s->_calib_imu_dw);
    v.push_back(s->_calib_imu_da);
    if (o.do_calib_imu_g_sensitivity)
      v.push_back(s->_calib_imu_tg);
    if (o.imu_model == ov_msckf::StateOptions::ImuModel::KALIBR)
      v.push_back(s->_calib_imu_GYROtoIMU);
    else
      v.push_back(s->_calib_imu_ACCtoIMU);
  }
  if (o.do_calib_camera_timeoffset)
    v.push_back(s->_calib_dt_CAMtoIMU);
  for (int i = 0; i < o.num_cameras; i++) {
    if (o.do_calib_camera_pose)
      v.push_back(s->_calib_IMUtoCAM.at(i));
    if (o.do_calib_camera_intrinsics)
      v.push_back(s->_cam_intrinsics.at(i));
  }
  return v;
}
inline void set_both(const TypePtr &v, const VectorXd &x) {
  v->set_value(x);
  v->set_fej(x);
}
/// (quaternion at the start?, size of the rest) of a variable's value
inline bool starts_with_quat(const TypePtr &v) {
  return std::dynamic_pointer_cast<ov_type::IMU>(v) || std::dynamic_pointer_cast<ov_type::PoseJPL>(v) || std::dynamic_pointer_cast<ov_type::JPLQuat>(v);
}
/// value after a correction: left-multiplicative for rotations, additive otherwise
inline VectorXd corrected(const TypePtr &v, const VectorXd &x, const VectorXd &d) {
  if (!starts_with_quat(v))
    return x + d;
  VectorXd o = x;
  Vector4d dq;
  dq << 0.5 * d.head(3), 1.0;
  dq /= dq.norm();
  Matrix3d R = jplR(dq) * jplR(x.head(4));
  o.head(4) = jplq(R);
  o.tail(x.size() - 4) += d.tail(d.size() - 3);
  return o;
}
/// largest difference between two values, rotations by angle
inline double value_dist(const TypePtr &v, const VectorXd &a, const VectorXd &b) {
  if (a.size() != b.size())
    return INFINITY;
  if (!starts_with_quat(v))
    return a.size() ? (a - b).cwiseAbs().maxCoeff() : 0.0;
  double r = rdist(jplR(a.head(4)), jplR(b.head(4)));
  if (a.size() > 4)
    r = std::max(r, (a - b).tail(a.size() - 4).cwiseAbs().maxCoeff());
  return r;
}
/// every top-level variable of a state, in the order of the covariance
inline std::vector<TypePtr> all_variables(const StatePtr &s) {
  std::vector<TypePtr> v = fresh_variables(s);
  for (auto &c : s->_clones_IMU)
    v.push_back(c.second);
  std::vector<size_t> ids;
  for (auto &f : s->_features_SLAM)
    v.push_back(f.second);
  std::sort(v.begin(), v.end(), [](const TypePtr &a, const TypePtr &b) { return a->id() < b->id(); });
  return v;
}
/// overwrites the joint covariance of all variables
inline void set_covariance(const StatePtr &s, const MatrixXd &P) { ov_msckf::StateHelper::set_initial_covariance(s, P, all_variables(s)); }
inline std::shared_ptr<ov_type::Landmark> add_landmark(const StatePtr &s, size_t id, int dim) {
  auto l = std::make_shared<ov_type::Landmark>(dim);
  l->_featid = id;
  MatrixXd I = MatrixXd::Identity(dim, dim);
  ov_msckf::StateHelper::initialize_invertible(s, l, {s->_imu->q()}, MatrixXd::Zero(dim, 3), I, I, VectorXd::Zero(dim));
  s->_features_SLAM.insert({id, l});
  return l;
}
/// an independent state with the same content and the same layout
inline StatePtr copy_state(const StatePtr &s) {
  auto o = s->_options;
  auto n = std::make_shared<ov_msckf::State>(o);
  for (auto &v : all_variables(s)) {
    for (auto &cl : s->_clones_IMU)
      if (cl.second == v) {
        n->_timestamp = cl.first;
        ov_msckf::StateHelper::augment_clone(n, Vector3d::Zero());
        auto &x = n->_clones_IMU.at(cl.first);
        x->set_value(cl.second->value());
        x->set_fej(cl.second->fej());
      }
    for (auto &f : s->_features_SLAM)
      if (f.second == v) {
        auto x = add_landmark(n, f.first, f.second->size());
        auto &y = f.second;
        x->_unique_camera_id = y->_unique_camera_id;
        x->_anchor_cam_id = y->_anchor_cam_id;
        x->_anchor_clone_timestamp = y->_anchor_clone_timestamp;
        x->has_had_anchor_change = y->has_had_anchor_change;
        x->should_marg = y->should_marg;
        x->update_fail_count = y->update_fail_count;
        x->uv_norm_zero = y->uv_norm_zero;
        x->uv_norm_zero_fej = y->uv_norm_zero_fej;
        x->_feat_representation = y->_feat_representation;
        x->set_value(y->value());
        x->set_fej(y->fej());
      }
  }
  auto copy = [](const TypePtr &a, const TypePtr &b) {
    a->set_value(b->value());
    a->set_fej(b->fej());
  };
  copy(n->_imu, s->_imu);
  copy(n->_calib_imu_dw, s->_calib_imu_dw);
  copy(n->_calib_imu_da, s->_calib_imu_da);
  copy(n->_calib_imu_tg, s->_calib_imu_tg);
  copy(n->_calib_imu_GYROtoIMU, s->_calib_imu_GYROtoIMU);
  copy(n->_calib_imu_ACCtoIMU, s->_calib_imu_ACCtoIMU);
  copy(n->_calib_dt_CAMtoIMU, s->_calib_dt_CAMtoIMU);
  for (auto &p : s->_calib_IMUtoCAM)
    copy(n->_calib_IMUtoCAM.at(p.first), p.second);
  for (auto &p : s->_cam_intrinsics)
    copy(n->_cam_intrinsics.at(p.first), p.second);
  for (auto &p : s->_cam_intrinsics_cameras) {
    auto &c = p.second;
    std::shared_ptr<ov_core::CamBase> x;
    if (std::dynamic_pointer_cast<ov_core::CamEqui>(c))
      x = std::make_shared<ov_core::CamEqui>(c->w(), c->h());
    else
      x = std::make_shared<ov_core::CamRadtan>(c->w(), c->h());
    if (c->get_value().rows() == 8)
      x->set_value(c->get_value());
    n->_cam_intrinsics_cameras.insert({p.first, x});
  }
  n->_timestamp = s->_timestamp;
  set_covariance(n, ov_msckf::StateHelper::get_full_covariance(s));
  return n;
}
} // namespace sk
#endif
