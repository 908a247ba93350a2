// Inertial streams, calibrations and reference kinematics shared by the propagation checks.
#ifndef VERIF_PROPKIT_H
#define VERIF_PROPKIT_H
#include "state/Propagator.h"
#include "statekit.h"
#include "utils/NoiseManager.h"
#include "utils/sensor_data.h"

namespace pk {
using namespace sk;
using ov_core::ImuData;
using ov_msckf::Propagator;
using ov_msckf::State;
using ov_msckf::StateOptions;
typedef Eigen::Matrix<long double, 3, 1> V3l;
typedef Eigen::Matrix<long double, 3, 3> M3l;

inline ImuData reading(double t, const Vector3d &w, const Vector3d &a) {
  ImuData d;
  d.timestamp = t;
  d.wm = w;
  d.am = a;
  return d;
}
struct Stream {
  std::vector<ImuData> data;
  double rate = 200;
  bool gaps = false;
  double wmax = 0;
};
/// times: regular, jittered or with dropped readings; signal: constant, smooth or rough
inline Stream gen_stream(pbt::Tape &t, int nmin, int nmax, bool rough = true) {
  Stream s;
  static const std::vector<double> rates{200, 400, 100, 1000, 50};
  s.rate = t.pick(rates);
  static const std::vector<double> bases{5.0, 1403636579.763555, 1e3, 0.6};
  double t0 = t.pick(bases);
  int n = t.range(nmin, nmax), timing = t.range(0, 2);
  double dt = 1 / s.rate;
  Rng g(t.u32());
  int signal = t.range(0, rough ? 2 : 1);
  int rk = t.range(0, 4); // rotation speed class
  double W = rk == 0 ? t.logreal(0.02, 0.5) : rk == 1 ? 0.0 : rk == 2 ? t.logreal(1e-6, 0.02) : rk == 3 ? t.real(0.5, 4) : 0.00873 * t.real(0.9, 1.1);
  double A = t.pick(std::vector<double>{9.81, 9.81, 0.0, 25});
  Vector3d w0 = W * gen_dir(t), a0 = A * gen_dir(t), dw = g.mat(3, 1, 0.5 * W), da = g.mat(3, 1, 0.2 * A), ph = g.mat(3, 1, 3), fr;
  for (int i = 0; i < 3; i++)
    fr(i) = 2 * M_PI * (0.2 + std::abs(g.sym(4)));
  double tt = 0;
  for (int i = 0; i < n; i++) {
    double jt = timing == 1 ? g.sym(0.3 * dt) : 0;
    double x = tt + jt;
    Vector3d w = w0, a = a0;
    if (signal == 1) {
      for (int k = 0; k < 3; k++) {
        w(k) += dw(k) * std::sin(fr(k) * x + ph(k));
        a(k) += da(k) * std::cos(fr(k) * x + ph(2 - k));
      }
    } else if (signal == 2) {
      w += g.mat(3, 1, 0.5 * W);
      a += g.mat(3, 1, 0.5 * A);
    }
    s.data.push_back(reading(t0 + x, w, a));
    s.wmax = std::max(s.wmax, w.norm());
    tt += dt;
    if (timing == 2 && t.flip(0.1)) {
      tt += dt * t.range(1, 20);
      s.gaps = true;
    }
  }
  return s;
}
inline Matrix3d Dmat(const StateOptions &o, const VectorXd &d) {
  Matrix3d D = Matrix3d::Zero();
  if (o.imu_model == StateOptions::ImuModel::KALIBR)
    D << d(0), 0, 0, d(1), d(3), 0, d(2), d(4), d(5); // lower triangular, stored by columns
  else
    D << d(0), d(1), d(3), 0, d(2), d(4), 0, 0, d(5); // upper triangular, stored by columns
  return D;
}
inline Matrix3d Tmat(const VectorXd &v) {
  Matrix3d T;
  T << v(0), v(3), v(6), v(1), v(4), v(7), v(2), v(5), v(8);
  return T;
}
/// options, random inertial state and calibration values (also for parameters which are not estimated)
inline StatePtr gen_state(pbt::Tape &t, StateOptions &o, bool *ideal = nullptr) {
  o = gen_options(t);
  auto s = std::make_shared<State>(o);
  Rng g(t.u32());
  for (int i = 0; i < o.num_cameras; i++)
    s->_cam_intrinsics_cameras.insert({i, std::make_shared<ov_core::CamRadtan>(640, 480)});
  VectorXd x(16);
  x.head(4) = jplq(expR(g.mat(3, 1, 2)));
  x.segment(4, 3) = g.mat(3, 1, t.flip(0.2) ? 300 : 5);
  x.segment(7, 3) = g.mat(3, 1, 3);
  x.segment(10, 3) = g.mat(3, 1, t.flip(0.3) ? 0 : 0.1);
  x.segment(13, 3) = g.mat(3, 1, t.flip(0.3) ? 0 : 0.5);
  set_both(s->_imu, x);
  double cal = t.flip(0.25) ? 0 : t.pick(std::vector<double>{0.02, 0.2});
  VectorXd id(6);
  bool kalibr = o.imu_model == StateOptions::ImuModel::KALIBR;
  if (kalibr)
    id << 1, 0, 0, 1, 0, 1;
  else
    id << 1, 0, 1, 0, 0, 1;
  if (ideal)
    *ideal = t.flip(0.15); // a fresh state's intrinsics are those of an ideal sensor
  if (!ideal || !*ideal) {
    set_both(s->_calib_imu_dw, id + g.mat(6, 1, cal));
    set_both(s->_calib_imu_da, id + g.mat(6, 1, cal));
    set_both(s->_calib_imu_tg, g.mat(9, 1, t.flip(0.4) ? 0 : 0.1 * cal));
    if (t.flip(0.7)) {
      set_both(s->_calib_imu_GYROtoIMU, jplq(expR(g.mat(3, 1, cal))));
      set_both(s->_calib_imu_ACCtoIMU, jplq(expR(g.mat(3, 1, cal))));
    }
  }
  VectorXd off(1);
  off << (t.flip(0.3) ? 0.0 : t.sym(0.05));
  set_both(s->_calib_dt_CAMtoIMU, off);
  for (int i = 0; i < o.num_cameras; i++) {
    VectorXd p(7);
    p.head(4) = jplq(expR(g.mat(3, 1, 1)));
    p.tail(3) = g.mat(3, 1, 0.2);
    set_both(s->_calib_IMUtoCAM.at(i), p);
    set_both(s->_cam_intrinsics.at(i), g.mat(8, 1, 1));
  }
  return s;
}
/// compensation of a reading for intrinsics, sensor frames, gravity sensitivity and biases
struct Comp {
  Matrix3d A, G, T;
  Vector3d bg, ba;
  explicit Comp(const StatePtr &s, bool ideal = false) {
    A = jplR(s->_calib_imu_ACCtoIMU->value()) * Dmat(s->_options, s->_calib_imu_da->value());
    G = jplR(s->_calib_imu_GYROtoIMU->value()) * Dmat(s->_options, s->_calib_imu_dw->value());
    T = Tmat(s->_calib_imu_tg->value());
    if (ideal) {
      A = G = Matrix3d::Identity();
      T.setZero();
    }
    VectorXd x = s->_imu->value();
    bg = x.segment(10, 3);
    ba = x.segment(13, 3);
  }
  Vector3d a(const ImuData &d) const { return A * (d.am - ba); }
  Vector3d w(const ImuData &d) const { return G * (d.wm - bg - T * a(d)); }
};
inline ImuData lerp(const ImuData &x, const ImuData &y, double t) {
  double l = (t - x.timestamp) / (y.timestamp - x.timestamp);
  return reading(t, (1 - l) * x.wm + l * y.wm, (1 - l) * x.am + l * y.am);
}
/// the stream restricted to [t0,t1], both inside it
inline std::vector<ImuData> cut(const std::vector<ImuData> &d, double t0, double t1) {
  std::vector<ImuData> o;
  for (size_t i = 0; i + 1 < d.size(); i++)
    if (d[i].timestamp <= t0 && t0 < d[i + 1].timestamp)
      o.push_back(d[i].timestamp == t0 ? d[i] : lerp(d[i], d[i + 1], t0));
  for (auto &x : d)
    if (x.timestamp > t0 && x.timestamp < t1)
      o.push_back(x);
  for (size_t i = 0; i + 1 < d.size(); i++)
    if (d[i].timestamp < t1 && t1 <= d[i + 1].timestamp)
      o.push_back(d[i + 1].timestamp == t1 ? d[i + 1] : lerp(d[i], d[i + 1], t1));
  return o;
}
struct Nav {
  M3l R; // global to IMU
  V3l v, p;
};
inline M3l skl(const V3l &w) {
  M3l S;
  S << 0, -w(2), w(1), w(2), 0, -w(0), -w(1), w(0), 0;
  return S;
}
/// continuous kinematics over dt with readings going linearly from (w0,a0) to (w1,a1)
inline Nav integrate(const Nav &x, const Vector3d &w0, const Vector3d &a0, const Vector3d &w1, const Vector3d &a1, double dt, double grav) {
  double W = std::max(w0.norm(), w1.norm());
  int n = std::min(600, std::max(8, (int)std::ceil(W * dt / 0.001)));
  Nav y = x;
  long double h = (long double)dt / n;
  V3l g(0, 0, grav);
  auto W_ = [&](long double s) -> V3l { return w0.cast<long double>() * (1 - s) + w1.cast<long double>() * s; };
  auto A_ = [&](long double s) -> V3l { return a0.cast<long double>() * (1 - s) + a1.cast<long double>() * s; };
  for (int i = 0; i < n; i++) {
    long double s0 = (long double)i / n, s1 = (i + 0.5L) / n, s2 = (i + 1.0L) / n;
    M3l K1 = -skl(W_(s0)) * y.R, K2 = -skl(W_(s1)) * (y.R + h / 2 * K1), K3 = -skl(W_(s1)) * (y.R + h / 2 * K2), K4 = -skl(W_(s2)) * (y.R + h * K3);
    V3l l1 = y.R.transpose() * A_(s0) - g, l2 = (y.R + h / 2 * K1).transpose() * A_(s1) - g, l3 = (y.R + h / 2 * K2).transpose() * A_(s1) - g,
        l4 = (y.R + h * K3).transpose() * A_(s2) - g;
    V3l m1 = y.v, m2 = y.v + h / 2 * l1, m3 = y.v + h / 2 * l2, m4 = y.v + h * l3;
    y.R += h / 6 * (K1 + 2 * K2 + 2 * K3 + K4);
    y.v += h / 6 * (l1 + 2 * l2 + 2 * l3 + l4);
    y.p += h / 6 * (m1 + 2 * m2 + 2 * m3 + m4);
  }
  return y;
}
inline Nav nav_of(const VectorXd &x) {
  Vector4d q = x.head(4);
  Nav n;
  n.R = jplR(q / q.norm()).cast<long double>();
  n.p = x.segment(4, 3).cast<long double>();
  n.v = x.segment(7, 3).cast<long double>();
  return n;
}
} // namespace pk
#endif
