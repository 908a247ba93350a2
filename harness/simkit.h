// A small visual-inertial world of its own: smooth motion with exact derivatives, inertial readings through a sensor model, point tracks through camera models,
// and a driver that delivers them to the estimator like a live system would.
#ifndef VERIF_SIMKIT_H
#define VERIF_SIMKIT_H
#include "core/VioManager.h"
#include "core/VioManagerOptions.h"
#include "propkit.h"
#include "state/Propagator.h"

namespace sim {
using namespace pk;
using ov_msckf::VioManager;
using ov_msckf::VioManagerOptions;

struct Motion {
  struct Wave {
    Vector3d amp, freq, ph;
  };
  std::vector<Wave> pos, rot;
  Matrix3d R0 = Matrix3d::Identity(); // IMU to global at rest
  Vector3d p0 = Vector3d::Zero();
  Vector3d drift = Vector3d::Zero();
  std::vector<double> events; // motion starts at events[0], stops at events[1], ...
  double ramp = 0.5;
  // progress along the path and its derivatives
  void progress(double t, double &s, double &ds, double &dds) const {
    if (events.empty()) {
      s = t;
      ds = 1;
      dds = 0;
      return;
    }
    s = ds = dds = 0;
    double sg = 1;
    for (double e : events) {
      double u = (t - e) / ramp;
      if (u >= 1) {
        s += sg * (ramp * 0.5 + (t - e - ramp));
        ds += sg;
      } else if (u > 0) {
        s += sg * ramp * (u * u * u - 0.5 * u * u * u * u);
        ds += sg * (3 * u * u - 2 * u * u * u);
        dds += sg * (6 * u - 6 * u * u) / ramp;
      }
      sg = -sg;
    }
  }
  static void sum(const std::vector<Wave> &w, double s, Vector3d &x, Vector3d &d, Vector3d &dd) {
    x.setZero();
    d.setZero();
    dd.setZero();
    for (auto &v : w)
      for (int i = 0; i < 3; i++) {
        double o = 2 * M_PI * v.freq(i), a = o * s + v.ph(i);
        x(i) += v.amp(i) * (std::sin(a) - std::sin(v.ph(i)));
        d(i) += v.amp(i) * o * std::cos(a);
        dd(i) -= v.amp(i) * o * o * std::sin(a);
      }
  }
  // pose of the IMU, velocity, acceleration in the global frame, angular velocity in the IMU frame
  void at(double t, Matrix3d &R_ItoG, Vector3d &p, Vector3d &v, Vector3d &a, Vector3d &w) const {
    double s, ds, dds;
    progress(t, s, ds, dds);
    Vector3d x, d, dd;
    sum(pos, s, x, d, dd);
    x += drift * s;
    d += drift;
    p = p0 + x;
    v = d * ds;
    a = dd * ds * ds + d * dds;
    Vector3d th, dth, ddth;
    sum(rot, s, th, dth, ddth);
    R_ItoG = R0 * expR(th);
    w = Jleft(Vector3d(-th)) * dth * ds;
  }
  Matrix3d R_ItoG(double t) const {
    Matrix3d R;
    Vector3d a, b, c, d;
    at(t, R, a, b, c, d);
    return R;
  }
  Vector3d p(double t) const {
    Matrix3d R;
    Vector3d a, b, c, d;
    at(t, R, a, b, c, d);
    return a;
  }
};
inline Motion gen_motion(uint32_t seed, double speed = 1) {
  Rng g(seed);
  Motion m;
  for (int k = 0; k < 2; k++) {
    Motion::Wave w;
    for (int i = 0; i < 3; i++) {
      w.amp(i) = (k ? 0.2 : 1.2) * (0.4 + std::abs(g.sym(0.6))) * (i == 2 ? 0.5 : 1);
      w.freq(i) = speed * (k ? 0.5 + std::abs(g.sym(0.4)) : 0.12 + std::abs(g.sym(0.12)));
      w.ph(i) = g.sym(3);
    }
    m.pos.push_back(w);
    for (int i = 0; i < 3; i++) {
      w.amp(i) = (k ? 0.06 : 0.35) * (0.4 + std::abs(g.sym(0.6)));
      w.freq(i) = speed * (k ? 0.4 + std::abs(g.sym(0.5)) : 0.1 + std::abs(g.sym(0.15)));
      w.ph(i) = g.sym(3);
    }
    m.rot.push_back(w);
  }
  m.R0 = expR(Vector3d(g.mat(3, 1, 0.8)));
  m.p0 = g.mat(3, 1, 3);
  return m;
}
struct Camera {
  bool equi = false;
  int w = 640, h = 480;
  VectorXd k = VectorXd::Zero(8);
  Matrix3d R_ItoC = Matrix3d::Identity();
  Vector3d p_IinC = Vector3d::Zero();
  VectorXd extrinsic() const {
    VectorXd x(7);
    x << jplq(R_ItoC), p_IinC;
    return x;
  }
};
struct Frame {
  double t = 0; // camera clock
  std::vector<int> cams;
  std::vector<std::vector<std::pair<size_t, Eigen::VectorXf>>> feats;
};
struct World {
  Motion motion;
  std::vector<Camera> cams;
  double grav = 9.81, dt_off = 0; // t_imu = t_cam + dt_off
  Matrix3d A = Matrix3d::Identity(), G = Matrix3d::Identity(), T = Matrix3d::Zero(); // compensation: a = A(am-ba), w = G(wm-bg-Ta)
  double sw = 0, sa = 0, swb = 0, sab = 0, spix = 0;                                  // noise put into the data
  Vector3d bg = Vector3d::Zero(), ba = Vector3d::Zero();
  double t0 = 0, dur = 5, imu_rate = 200, cam_rate = 10;
  bool shared_map = true, async = false;
  int num_pts = 60;
  double depth_min = 2, depth_max = 8, p_drop = 0.02, p_outlier = 0;
  uint32_t seed = 1;
  // products
  std::vector<ImuData> imu;
  std::vector<std::pair<Vector3d, Vector3d>> bias; // at each reading
  std::vector<Frame> frames;
  std::map<size_t, Vector3d> points;

  /// true inertial state at an inertial-clock time
  VectorXd truth(double ti) const {
    Matrix3d R;
    Vector3d p, v, a, w;
    motion.at(ti - t0, R, p, v, a, w);
    VectorXd x(16);
    Vector3d g = bg, b = ba;
    size_t i = 0;
    while (i + 1 < imu.size() && imu[i + 1].timestamp <= ti)
      i++;
    if (!bias.empty()) {
      g = bias[i].first;
      b = bias[i].second;
    }
    x << jplq(Matrix3d(R.transpose())), p, v, g, b;
    return x;
  }
  bool see(const Camera &c, double ti, const Vector3d &X, Vector2d &uv, double *depth = nullptr) const {
    Matrix3d R = motion.R_ItoG(ti - t0);
    Vector3d P = c.R_ItoC * (R.transpose() * (X - motion.p(ti - t0))) + c.p_IinC;
    if (depth)
      *depth = P(2);
    if (P(2) < 0.3 || P.head(2).norm() / P(2) > (c.equi ? 2.0 : 1.1))
      return false;
    uv = camgen::project(c.equi, c.k, Vector2d(P.head(2) / P(2)));
    return uv(0) > 1 && uv(0) < c.w - 2 && uv(1) > 1 && uv(1) < c.h - 2;
  }
  void make() {
    Rng gi(seed * 4 + 1), gm(seed * 4 + 2), gp(seed * 4 + 3);
    double dt = 1 / imu_rate;
    Vector3d b_g = bg, b_a = ba;
    int n = (int)std::ceil((dur + 0.5) * imu_rate);
    Matrix3d Ai = A.inverse(), Gi = G.inverse();
    for (int i = 0; i <= n; i++) {
      double t = t0 - 0.25 + i * dt;
      Matrix3d R;
      Vector3d p, v, a, w;
      motion.at(t - t0, R, p, v, a, w);
      Vector3d f = R.transpose() * (a + Vector3d(0, 0, grav));
      if (i > 0) {
        b_g += swb * std::sqrt(dt) * gi.gvec(3);
        b_a += sab * std::sqrt(dt) * gi.gvec(3);
      }
      Vector3d nw = sw / std::sqrt(dt) * gi.gvec(3), na = sa / std::sqrt(dt) * gi.gvec(3);
      imu.push_back(reading(t, Gi * w + T * f + b_g + nw, Ai * f + b_a + na));
      bias.push_back({b_g, b_a});
    }
    size_t next = 1;
    int nc = (int)cams.size();
    std::vector<std::vector<size_t>> active(nc);
    int nf = (int)std::floor(dur * cam_rate);
    for (int f = 0; f <= nf; f++) {
      std::vector<std::vector<int>> groups;
      if (async)
        for (int k = 0; k < nc; k++)
          groups.push_back({k});
      else {
        groups.push_back({});
        for (int k = 0; k < nc; k++)
          groups[0].push_back(k);
      }
      for (size_t gi2 = 0; gi2 < groups.size(); gi2++) {
        Frame F;
        F.t = t0 + (f + (async ? (double)gi2 / groups.size() : 0.0)) / cam_rate;
        F.cams = groups[gi2];
        double ti = F.t + dt_off;
        for (int k : F.cams) {
          const Camera &c = cams[k];
          auto &act = active[k];
          std::vector<size_t> keep;
          Vector2d uv;
          std::set<size_t> have;
          for (size_t id : act)
            if (see(c, ti, points.at(id), uv) && !(gm.sym() > 1 - 2 * p_drop)) {
              keep.push_back(id);
              have.insert(id);
            }
          act = keep;
          if (shared_map && k > 0) // points of the first camera which this one sees as well
            for (size_t id : active[0])
              if (!have.count(id) && (int)act.size() < num_pts && see(c, ti, points.at(id), uv)) {
                act.push_back(id);
                have.insert(id);
              }
          Matrix3d R = motion.R_ItoG(ti - t0);
          for (int tries = 0; (int)act.size() < num_pts && tries < 4 * num_pts && !(shared_map && k > 0); tries++) {
            // a direction in the camera frame
            double lim = c.equi ? 1.0 : 0.75, r = lim * std::sqrt(std::abs(gm.sym())), an = gm.sym(M_PI);
            Vector3d P(r * std::cos(an), r * std::sin(an), 1);
            P *= depth_min + (depth_max - depth_min) * std::abs(gm.sym());
            Vector3d X = R * (c.R_ItoC.transpose() * (P - c.p_IinC)) + motion.p(ti - t0);
            if (!see(c, ti, X, uv))
              continue;
            points[next] = X;
            act.push_back(next++);
          }
          std::vector<std::pair<size_t, Eigen::VectorXf>> obs;
          for (size_t id : act) {
            see(c, ti, points.at(id), uv);
            Vector2d z = uv + spix * gp.gvec(2);
            if (p_outlier > 0 && gp.sym() > 1 - 2 * p_outlier)
              z += Vector2d(gp.mat(2, 1, 60));
            if (z(0) < 0 || z(1) < 0 || z(0) > c.w - 1 || z(1) > c.h - 1)
              continue;
            Eigen::VectorXf zf(2);
            zf << (float)z(0), (float)z(1);
            obs.push_back({id, zf});
          }
          F.feats.push_back(obs);
        }
        frames.push_back(F);
      }
    }
  }
};
inline std::shared_ptr<ov_core::CamBase> camera_object(const Camera &c) {
  std::shared_ptr<ov_core::CamBase> x;
  if (c.equi)
    x = std::make_shared<ov_core::CamEqui>(c.w, c.h);
  else
    x = std::make_shared<ov_core::CamRadtan>(c.w, c.h);
  x->set_value(c.k);
  return x;
}
inline std::vector<Camera> gen_cams(uint32_t seed, int n) {
  Rng g(seed);
  std::vector<Camera> cs;
  Matrix3d R = expR(Vector3d(g.mat(3, 1, 2)));
  for (int i = 0; i < n; i++) {
    auto &s = camgen::shipped()[(size_t)std::floor(std::abs(g.sym(9.99)))];
    Camera c;
    c.equi = s.equi;
    c.w = s.w;
    c.h = s.h;
    for (int k = 0; k < 8; k++)
      c.k(k) = s.v[k];
    c.R_ItoC = expR(Vector3d(g.mat(3, 1, i ? 0.05 : 0))) * R;
    c.p_IinC = g.mat(3, 1, 0.05);
    if (i)
      c.p_IinC(0) -= 0.11 * i;
    cs.push_back(c);
  }
  return cs;
}
/// estimator options describing this world; calibrations may then be perturbed by the caller
inline VioManagerOptions options_for(const World &w, const StateOptions &so) {
  VioManagerOptions p;
  p.state_options = so;
  p.state_options.num_cameras = (int)w.cams.size();
  p.gravity_mag = w.grav;
  p.calib_camimu_dt = w.dt_off;
  p.dt_slam_delay = 1;
  p.use_stereo = w.shared_map;
  p.use_klt = true;
  p.use_aruco = false;
  p.num_opencv_threads = 0;
  p.use_multi_threading_pubs = false;
  p.use_multi_threading_subs = false;
  p.num_pts = w.num_pts;
  VectorXd id(6);
  if (so.imu_model == StateOptions::ImuModel::KALIBR)
    id << 1, 0, 0, 1, 0, 1;
  else
    id << 1, 0, 1, 0, 0, 1;
  p.vec_dw = id;
  p.vec_da = id;
  p.vec_tg.setZero();
  p.q_ACCtoIMU << 0, 0, 0, 1;
  p.q_GYROtoIMU << 0, 0, 0, 1;
  for (size_t i = 0; i < w.cams.size(); i++) {
    p.camera_intrinsics.insert({i, camera_object(w.cams[i])});
    p.camera_extrinsics.insert({i, w.cams[i].extrinsic()});
  }
  auto &io = p.init_options;
  io.num_cameras = (int)w.cams.size();
  io.gravity_mag = w.grav;
  io.calib_camimu_dt = w.dt_off;
  io.use_stereo = w.shared_map;
  for (size_t i = 0; i < w.cams.size(); i++) {
    io.camera_intrinsics.insert({i, camera_object(w.cams[i])});
    io.camera_extrinsics.insert({i, w.cams[i].extrinsic()});
  }
  p.imu_noises.sigma_w = 1.6968e-04;
  p.imu_noises.sigma_a = 2.0e-3;
  p.imu_noises.sigma_wb = 1.9393e-05;
  p.imu_noises.sigma_ab = 3.0e-3;
  p.msckf_options.chi2_multipler = 1;
  p.slam_options.chi2_multipler = 1;
  p.aruco_options.chi2_multipler = 1;
  p.msckf_options.sigma_pix = p.slam_options.sigma_pix = p.aruco_options.sigma_pix = 1;
  return p;
}
inline void square_noises(VioManagerOptions &p) {
  auto &n = p.imu_noises;
  n.sigma_w_2 = n.sigma_w * n.sigma_w;
  n.sigma_a_2 = n.sigma_a * n.sigma_a;
  n.sigma_wb_2 = n.sigma_wb * n.sigma_wb;
  n.sigma_ab_2 = n.sigma_ab * n.sigma_ab;
  for (auto *u : {&p.msckf_options, &p.slam_options, &p.aruco_options})
    u->sigma_pix_sq = u->sigma_pix * u->sigma_pix;
}
/// independent copy of options: cameras are held by pointer
inline VioManagerOptions copy_options(const VioManagerOptions &p) {
  VioManagerOptions q = p;
  q.camera_intrinsics.clear();
  for (auto &c : p.camera_intrinsics) {
    std::shared_ptr<ov_core::CamBase> x;
    if (std::dynamic_pointer_cast<ov_core::CamEqui>(c.second))
      x = std::make_shared<ov_core::CamEqui>(c.second->w(), c.second->h());
    else
      x = std::make_shared<ov_core::CamRadtan>(c.second->w(), c.second->h());
    x->set_value(c.second->get_value());
    q.camera_intrinsics.insert({c.first, x});
  }
  return q;
}
inline Eigen::Matrix<double, 17, 1> init_state(const World &w, double tcam) {
  Eigen::Matrix<double, 17, 1> x;
  x(0) = tcam;
  x.tail(16) = w.truth(tcam + w.dt_off);
  return x;
}
/// one delivery: an inertial reading or an image
struct Event {
  bool imu;
  size_t i;
};
/// inertial readings in order, each image once readings reach beyond it by the slack
inline std::vector<Event> schedule(const World &w, double tinit, double slack = 0.02) {
  std::vector<Event> ev;
  size_t f = 0;
  while (f < w.frames.size() && w.frames[f].t <= tinit)
    f++;
  for (size_t i = 0; i < w.imu.size(); i++) {
    ev.push_back({true, i});
    while (f < w.frames.size() && w.frames[f].t + w.dt_off + slack <= w.imu[i].timestamp)
      ev.push_back({false, f++});
  }
  return ev;
}
} // namespace sim
#endif
