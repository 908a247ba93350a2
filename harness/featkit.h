// States with clones and cameras around observed points, and an independent double-precision measurement model.
#ifndef VERIF_FEATKIT_H
#define VERIF_FEATKIT_H
#include "statekit.h"
#include "types/LandmarkRepresentation.h"

namespace fk {
using namespace sk;
typedef ov_type::LandmarkRepresentation LR;
typedef LR::Representation Rep;
using ov_msckf::State;
using ov_msckf::StateHelper;
using ov_msckf::StateOptions;

inline const std::vector<Rep> &reps() {
  static const std::vector<Rep> r{Rep::GLOBAL_3D, Rep::GLOBAL_FULL_INVERSE_DEPTH, Rep::ANCHORED_3D, Rep::ANCHORED_FULL_INVERSE_DEPTH, Rep::ANCHORED_MSCKF_INVERSE_DEPTH,
                                  Rep::ANCHORED_INVERSE_DEPTH_SINGLE};
  return r;
}
inline bool anchored(Rep r) { return r != Rep::GLOBAL_3D && r != Rep::GLOBAL_FULL_INVERSE_DEPTH; }
inline int rep_dim(Rep r) { return r == Rep::ANCHORED_INVERSE_DEPTH_SINGLE ? 1 : 3; }
/// parameters of a position (in the global or anchor frame)
inline VectorXd to_params(Rep r, const Vector3d &p) {
  Vector3d x;
  switch (r) {
  case Rep::GLOBAL_3D:
  case Rep::ANCHORED_3D:
    return p;
  case Rep::GLOBAL_FULL_INVERSE_DEPTH:
  case Rep::ANCHORED_FULL_INVERSE_DEPTH:
    x << std::atan2(p(1), p(0)), std::atan2(p.head(2).norm(), p(2)), 1 / p.norm();
    return x;
  case Rep::ANCHORED_MSCKF_INVERSE_DEPTH:
    x << p(0) / p(2), p(1) / p(2), 1 / p(2);
    return x;
  default:
    return VectorXd::Constant(1, 1 / p(2));
  }
}
inline Vector3d from_params(Rep r, const VectorXd &x, const Vector3d &bearing = Vector3d::Zero()) {
  switch (r) {
  case Rep::GLOBAL_3D:
  case Rep::ANCHORED_3D:
    return x;
  case Rep::GLOBAL_FULL_INVERSE_DEPTH:
  case Rep::ANCHORED_FULL_INVERSE_DEPTH:
    return Vector3d(std::cos(x(0)) * std::sin(x(1)), std::sin(x(0)) * std::sin(x(1)), std::cos(x(1))) / x(2);
  case Rep::ANCHORED_MSCKF_INVERSE_DEPTH:
    return Vector3d(x(0), x(1), 1) / x(2);
  default:
    return bearing / x(0);
  }
}
struct PoseV {
  Matrix3d R; // from the outer to the inner frame
  Vector3d p; // of the inner frame in the outer (clones), of the outer in the inner (extrinsics)
};
inline PoseV pose_of(const VectorXd &x) { return {jplR(Vector4d(x.head(4) / x.head(4).norm())), x.segment(4, 3)}; }
inline Vector3d to_global(const PoseV &clone, const PoseV &ext, const Vector3d &pA) { return clone.R.transpose() * (ext.R.transpose() * (pA - ext.p)) + clone.p; }
inline Vector3d to_camera(const PoseV &clone, const PoseV &ext, const Vector3d &pG) { return ext.R * (clone.R * (pG - clone.p)) + ext.p; }

struct Rig {
  StateOptions o;
  StatePtr s;
  std::vector<bool> equi;
  std::vector<double> times;
  Rng g{1};
};
/// cameras looking roughly along a common direction; clones scattered so that points in front stay in view
inline Rig gen_rig(pbt::Tape &t, int cmin, int cmax, double base = 1.0, bool fej_differs = false, int force_fej = -1) {
  Rig r;
  r.o = gen_options(t);
  if (force_fej >= 0)
    r.o.do_fej = force_fej;
  r.o.max_clone_size = 11;
  r.g = Rng(t.u32());
  int nc = t.range(cmin, cmax);
  r.s = std::make_shared<State>(r.o);
  auto &s = r.s;
  auto &g = r.g;
  Matrix3d Rc = expR(g.mat(3, 1, 2)); // IMU to camera
  for (int i = 0; i < r.o.num_cameras; i++) {
    auto &cal = camgen::shipped()[t.range(0, (int)camgen::shipped().size() - 1)];
    VectorXd k(8);
    for (int j = 0; j < 8; j++)
      k(j) = cal.v[j];
    auto cam = camgen::make(cal.equi, cal.w, cal.h);
    cam->set_value(k);
    s->_cam_intrinsics_cameras.insert({i, cam});
    r.equi.push_back(cal.equi);
    set_both(s->_cam_intrinsics.at(i), k);
    VectorXd e(7);
    e << jplq(Matrix3d(expR(g.mat(3, 1, 0.08)) * Rc)), VectorXd(g.mat(3, 1, 0.2));
    set_both(s->_calib_IMUtoCAM.at(i), e);
  }
  VectorXd off(1);
  off << g.sym(0.02);
  set_both(s->_calib_dt_CAMtoIMU, off);
  double tt = t.pick(std::vector<double>{1.0, 1403636579.763555, 100.5});
  Matrix3d R0 = expR(g.mat(3, 1, 2));
  Vector3d p0 = g.mat(3, 1, t.flip(0.3) ? 30 : 2);
  for (int i = 0; i < nc; i++) {
    VectorXd x(16);
    x << jplq(Matrix3d(expR(g.mat(3, 1, 0.12)) * R0)), VectorXd(p0 + Vector3d(g.mat(3, 1, base))), VectorXd(g.mat(9, 1, 0.3));
    s->_imu->set_value(x);
    s->_imu->set_fej(x);
    s->_timestamp = tt;
    StateHelper::augment_clone(s, Vector3d(g.mat(3, 1, 0.5)));
    r.times.push_back(tt);
    if (fej_differs) {
      VectorXd d = 0.01 * g.gvec(6);
      s->_clones_IMU.at(tt)->set_fej(corrected(s->_clones_IMU.at(tt), x.head(7), d));
    }
    tt += 0.05 + 0.01 * (i % 3);
  }
  return r;
}
/// a point in view of the first camera from the middle of the clones
inline Vector3d gen_point(Rig &r, double dmin = 3, double dmax = 12, double cone = 0.35) {
  auto &s = r.s;
  double tm = r.times[r.times.size() / 2];
  double d = dmin * std::pow(dmax / dmin, std::abs(r.g.sym()));
  Vector3d ray(r.g.sym(cone), r.g.sym(cone), 1);
  return to_global(pose_of(s->_clones_IMU.at(tm)->value()), pose_of(s->_calib_IMUtoCAM.at(0)->value()), d * ray);
}
inline Vector2d predict(const Rig &r, int cam, double time, const Vector3d &pG) {
  auto &s = r.s;
  Vector3d P = to_camera(pose_of(s->_clones_IMU.at(time)->value()), pose_of(s->_calib_IMUtoCAM.at(cam)->value()), pG);
  return camgen::project(r.equi[cam], s->_cam_intrinsics.at(cam)->value(), Vector2d(P.head(2) / P(2)));
}
inline Vector3d in_camera(const Rig &r, int cam, double time, const Vector3d &pG) {
  auto &s = r.s;
  return to_camera(pose_of(s->_clones_IMU.at(time)->value()), pose_of(s->_calib_IMUtoCAM.at(cam)->value()), pG);
}
} // namespace fk
#endif
