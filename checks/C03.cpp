// C03: the covariance after propagation is the linearisation of the mean propagation plus the sensor noise.
#include "propkit.h"
using namespace pk;
using namespace ov_msckf;

namespace {
/// inertial state and the intrinsics which propagation depends on
std::vector<TypePtr> moving(const StatePtr &s) {
  std::vector<TypePtr> v;
  for (auto &x : fresh_variables(s)) {
    if (x == s->_calib_dt_CAMtoIMU || x == s->_calib_IMUtoCAM.at(0) || x == s->_cam_intrinsics.at(0))
      break;
    v.push_back(x);
  }
  return v;
}
/// mean propagation over one interval, as a function of the error state: the library's own for the discrete
/// method, else the exact kinematics with linearly interpolated (Runge-Kutta) or averaged (analytic) readings
struct Mean {
  StateOptions o;
  double grav;
  NoiseManager nm;
  std::vector<VectorXd> x; // values of the moving variables
  std::vector<VectorXd> fixed; // intrinsics which are not estimated
  ImuData a, b;
  VectorXd operator()(const VectorXd &d) const {
    auto oo = o;
    oo.do_calib_camera_intrinsics = oo.do_calib_camera_pose = oo.do_calib_camera_timeoffset = false;
    oo.num_cameras = 1;
    auto s = std::make_shared<State>(oo);
    s->_calib_imu_dw->set_value(fixed[0]);
    s->_calib_imu_da->set_value(fixed[1]);
    s->_calib_imu_tg->set_value(fixed[2]);
    s->_calib_imu_GYROtoIMU->set_value(fixed[3]);
    s->_calib_imu_ACCtoIMU->set_value(fixed[4]);
    auto v = moving(s);
    int at = 0;
    for (size_t i = 0; i < v.size(); i++) {
      VectorXd y = corrected(v[i], x[i], d.segment(at, v[i]->size()));
      v[i]->set_value(y);
      v[i]->set_fej(y);
      at += v[i]->size();
    }
    if (o.integration_method != StateOptions::DISCRETE) {
      Comp c(s);
      Vector3d wa = c.w(a), wb = c.w(b), aa = c.a(a), ab = c.a(b);
      if (o.integration_method == StateOptions::ANALYTICAL) {
        wa = wb = (0.5 * (wa + wb)).eval();
        aa = ab = (0.5 * (aa + ab)).eval();
      }
      VectorXd y = s->_imu->value();
      Nav n = integrate(nav_of(y), wa, aa, wb, ab, b.timestamp - a.timestamp, grav);
      y.head(4) = jplq(n.R.cast<double>());
      y.segment(4, 3) = n.p.cast<double>();
      y.segment(7, 3) = n.v.cast<double>();
      return y;
    }
    s->_timestamp = a.timestamp;
    Propagator p(nm, grav);
    p.feed_imu(a, -1);
    p.feed_imu(b, -1);
    p.propagate_and_clone(s, b.timestamp);
    return s->_imu->value();
  }
};
/// error of y with respect to x
VectorXd err(const VectorXd &y, const VectorXd &x) {
  VectorXd e(15);
  Vector4d qy = y.head(4), qx = x.head(4);
  e.head(3) = -logR(jplR(qy / qy.norm()) * jplR(qx / qx.norm()).transpose());
  e.tail(12) = y.tail(12) - x.tail(12);
  return e;
}
MatrixXd derivative(Mean f, int n) {
  f.x[0].segment(4, 6).setZero(); // shifts of position and velocity add exactly; small numbers keep the differences accurate
  VectorXd x0 = f(VectorXd::Zero(n));
  MatrixXd J(15, n);
  auto diff = [&](int i, double h) {
    VectorXd d = VectorXd::Zero(n);
    d(i) = h;
    VectorXd p = err(f(d), x0);
    d(i) = -h;
    return VectorXd((p - err(f(d), x0)) / (2 * h));
  };
  for (int i = 0; i < n; i++)
    J.col(i) = i >= 3 && i < 9 ? diff(i, 1.0) : VectorXd((4 * diff(i, 2e-3) - diff(i, 4e-3)) / 3);
  return J;
}
} // namespace

PBT_PART(covariance, 200, 900, 15000) {
  ov_core::Printer::setPrintLevel("SILENT");
  StateOptions o;
  auto s = gen_state(t, o);
  auto st = gen_stream(t, 5, 14);
  Rng g(t.u32());
  double grav = t.pick(std::vector<double>{9.81, 9.81, 1.62, 0.0});
  NoiseManager nm;
  nm.sigma_w = t.logreal(1e-4, 1e-1);
  nm.sigma_a = t.logreal(1e-3, 1);
  nm.sigma_wb = t.logreal(1e-5, 1e-1);
  nm.sigma_ab = t.logreal(1e-4, 1);
  nm.sigma_w_2 = nm.sigma_w * nm.sigma_w;
  nm.sigma_a_2 = nm.sigma_a * nm.sigma_a;
  nm.sigma_wb_2 = nm.sigma_wb * nm.sigma_wb;
  nm.sigma_ab_2 = nm.sigma_ab * nm.sigma_ab;
  double off = s->_calib_dt_CAMtoIMU->value()(0);
  double lo = st.data.front().timestamp, hi = st.data.back().timestamp;
  bool on0 = t.flip(), on1 = t.flip();
  size_t i0 = t.range(0, 1), i1 = t.range(2, (int)st.data.size() - 2);
  double u0 = t.real(0.05, 0.95), u1 = t.real(0.05, 0.95);
  double T0 = on0 ? st.data[i0].timestamp : st.data[i0].timestamp * (1 - u0) + st.data[i0 + 1].timestamp * u0;
  double T1 = on1 ? st.data[i1].timestamp : st.data[i1].timestamp * (1 - u1) + st.data[i1 + 1].timestamp * u1;
  if (on0 || on1) { // readings are hit exactly only without rounding of the clock change
    off = 0;
    set_both(s->_calib_dt_CAMtoIMU, VectorXd::Zero(1));
  }
  // earlier clones and landmarks
  int ncl = t.range(0, 3);
  for (int i = 0; i < ncl; i++) {
    s->_timestamp = T0 - off - 0.1 * (ncl - i);
    StateHelper::augment_clone(s, Vector3d::Zero());
    VectorXd x(7);
    x.head(4) = jplq(expR(g.mat(3, 1, 2)));
    x.tail(3) = g.mat(3, 1, 5);
    set_both(s->_clones_IMU.at(s->_timestamp), x);
  }
  if (t.flip()) {
    auto l = add_landmark(s, 5, 3);
    l->_feat_representation = ov_type::LandmarkRepresentation::Representation::GLOBAL_3D;
    set_both(l, g.mat(3, 1, 5));
  }
  double ts0 = T0 - off, ts1 = T1 - off;
  s->_timestamp = ts0;
  double t0 = ts0 + off, t1 = ts1 + off;
  auto rd = cut(st.data, t0, t1);
  for (size_t i = 0; i + 1 < rd.size(); i++)
    if (rd[i + 1].timestamp - rd[i].timestamp < 2e-6)
      throw pbt::Discard("degenerate interval");
  if (rd.size() < 2)
    throw pbt::Discard("no readings");
  auto vars = all_variables(s);
  int N = 0;
  for (auto &v : vars)
    N += v->size();
  VectorXd sd(N);
  double scale = t.pick(std::vector<double>{1.0, 1e-2, 1e-4});
  for (int i = 0; i < N; i++)
    sd(i) = scale * std::pow(10.0, g.sym(1.5) - 0.5);
  MatrixXd P0 = g.cov(sd);
  set_covariance(s, P0);
  // filter's value away from its first estimate: without first-estimate Jacobians the value counts
  bool apart = t.flip(0.5) && !o.do_fej;
  if (apart) {
    VectorXd x = s->_imu->value(), d = g.mat(15, 1, 0.3);
    s->_imu->set_value(corrected(s->_imu, x, d));
    for (auto &v : moving(s))
      if (v != s->_imu)
        v->set_value(corrected(v, v->value(), g.mat(v->size(), 1, 0.02)));
  }
  auto s2 = copy_state(s); // for the split
  // reference transition and noise
  auto mv = moving(s);
  int n = 0;
  for (auto &v : mv)
    n += v->size();
  Mean f;
  f.o = o;
  f.grav = grav;
  f.nm = nm;
  for (auto &v : mv)
    f.x.push_back(v->value());
  f.fixed = {s->_calib_imu_dw->value(), s->_calib_imu_da->value(), s->_calib_imu_tg->value(), s->_calib_imu_GYROtoIMU->value(), s->_calib_imu_ACCtoIMU->value()};
  Comp comp(s);
  bool rk = o.integration_method == StateOptions::RK4, disc = o.integration_method == StateOptions::DISCRETE;
  MatrixXd Phi = MatrixXd::Identity(n, n), Q = MatrixXd::Zero(n, n), Phi2 = Phi, Q2 = Q;
  double slow = 0, coarse = 0, cancel = 0;
  auto step = [&](MatrixXd &Ph, MatrixXd &Qs, const MatrixXd &F15, double dt) {
    MatrixXd F = MatrixXd::Identity(n, n), G = MatrixXd::Zero(n, 12);
    F.topRows(15) = F15;
    G.block(0, 0, 9, 3) = F15.block(0, 9, 9, 3);
    G.block(0, 3, 9, 3) = F15.block(0, 12, 9, 3);
    G.block(9, 6, 6, 6).setIdentity();
    VectorXd q(12);
    q << Vector3d::Constant(nm.sigma_w_2 / dt), Vector3d::Constant(nm.sigma_a_2 / dt), Vector3d::Constant(nm.sigma_wb_2 * dt), Vector3d::Constant(nm.sigma_ab_2 * dt);
    Ph = F * Ph;
    Qs = F * Qs * F.transpose() + G * q.asDiagonal() * G.transpose();
  };
  for (size_t i = 0; i + 1 < rd.size(); i++) {
    f.a = rd[i];
    f.b = rd[i + 1];
    double dt = rd[i + 1].timestamp - rd[i].timestamp;
    MatrixXd F = derivative(f, n);
    step(Phi, Q, F, dt);
    double wn = (0.5 * (comp.w(rd[i]) + comp.w(rd[i + 1]))).norm();
    if (!disc && wn < 0.0088)
      slow = std::max(slow, wn * dt);
    if (!disc && wn > 0.0087) // the closed forms divide differences of order one by the cubed rate
      cancel += 4e-16 / std::pow(wn, 3) * std::max(comp.a(rd[i]).norm(), comp.a(rd[i + 1]).norm()) * (nm.sigma_w / std::sqrt(dt) + nm.sigma_a / std::sqrt(dt) * comp.T.norm());
    if (rk) { // error of one fourth-order step, and of
      double W = std::max(comp.w(rd[i]).norm(), comp.w(rd[i + 1]).norm()) * dt, D = (comp.w(rd[i + 1]) - comp.w(rd[i])).norm() * dt;
      coarse = std::max(coarse, W * W * W / 60 + W * D / 40);
      // the other admissible discretisation: readings averaged over the interval
      Mean h = f;
      h.o.integration_method = StateOptions::ANALYTICAL;
      step(Phi2, Q2, derivative(h, n), dt);
    }
    f.x[0] = f(VectorXd::Zero(n));
  }
  auto full = [&](const MatrixXd &Ph, const MatrixXd &Qs) {
    MatrixXd A = MatrixXd::Identity(N, N), B = MatrixXd::Zero(N, N);
    A.topLeftCorner(n, n) = Ph;
    B.topLeftCorner(n, n) = Qs;
    MatrixXd P = A * P0 * A.transpose() + B, J = MatrixXd::Zero(N + 6, N);
    J.topRows(N).setIdentity();
    J.block(N, 0, 6, 6).setIdentity();
    if (o.do_calib_camera_timeoffset) {
      int at = s->_calib_dt_CAMtoIMU->id();
      J.block(N, at, 3, 1) += comp.w(rd.back());
      J.block(N + 3, at, 3, 1) += f.x[0].segment(7, 3);
    }
    return MatrixXd(J * P * J.transpose());
  };
  MatrixXd Pr = full(Phi, Q), Pr2 = rk ? full(Phi2, Q2) : Pr;
  // the library
  Propagator prop(nm, grav);
  for (auto &d : st.data)
    prop.feed_imu(d, -1);
  prop.propagate_and_clone(s, ts1);
  MatrixXd C = StateHelper::get_full_covariance(s);
  REQUIRE(C.rows() == N + 6, "covariance has " << C.rows() << " rows, expected " << N + 6);
  VectorXd sc = Pr.diagonal().cwiseSqrt();
  double spread = 0, worst = 0;
  for (int i = 0; i < N + 6; i++)
    for (int j = 0; j < N + 6; j++)
      spread = std::max(spread, std::abs(Pr(i, j) - Pr2(i, j)) / (sc(i) * sc(j)));
  double tol = 5e-6 + 2 * spread + 6 * slow + 4 * coarse + 4 * cancel / sc.segment(3, 3).minCoeff();
  int wi = 0, wj = 0;
  for (int i = 0; i < N + 6; i++)
    for (int j = 0; j < N + 6; j++) {
      double e = std::abs(C(i, j) - Pr(i, j)) / (sc(i) * sc(j));
      if (!(e <= worst)) {
        worst = e;
        wi = i;
        wj = j;
      }
    }
  static const char *names[] = {"discrete", "rk4", "analytic"};
  std::string m = names[disc ? 0 : rk ? 1 : 2];
  std::string cls = m + (slow > 0 ? " slow" : apart ? " apart" : rk && spread > 1e-7 ? " varying" : "");
  c.metric("frac_tol:" + cls, worst / tol);
  if (slow > 0)
    c.metric("slow tolerance", tol);
  if (rk)
    c.metric("discretisation spread", spread);
  REQUIRE(worst <= tol, cls << ": covariance entry " << wi << "," << wj << " is " << C(wi, wj) << " expected " << Pr(wi, wj) << " (relative " << worst << ", tolerance " << tol << ") after " << rd.size()
                            << " readings over " << t1 - t0 << " s, " << n << " moving entries");
  REQUIRE((C - C.transpose()).cwiseAbs().maxCoeff() <= 1e-12 * C.cwiseAbs().maxCoeff(), "covariance is not symmetric");
  // the same interval in two parts
  if (rd.size() > 2 && off == 0 && t.flip(0.7)) {
    size_t k = t.range(1, (int)rd.size() - 2);
    Propagator p2(nm, grav);
    for (auto &d : st.data)
      p2.feed_imu(d, -1);
    p2.propagate_and_clone(s2, rd[k].timestamp);
    StateHelper::marginalize(s2, s2->_clones_IMU.at(rd[k].timestamp));
    s2->_clones_IMU.erase(rd[k].timestamp);
    p2.propagate_and_clone(s2, ts1);
    MatrixXd C2 = StateHelper::get_full_covariance(s2);
    REQUIRE(C2.rows() == C.rows(), "covariance sizes differ after splitting");
    double e = 0;
    for (int i = 0; i < N + 6; i++)
      for (int j = 0; j < N + 6; j++)
        e = std::max(e, std::abs(C(i, j) - C2(i, j)) / (sc(i) * sc(j)));
    c.metric("split difference", e);
    REQUIRE(e <= 1e-8, "splitting the interval at a reading changes the covariance by " << e);
    REQUIRE(value_dist(s->_imu, s->_imu->value(), s2->_imu->value()) <= 1e-10 * (1 + s->_imu->value().norm()), "splitting the interval at a reading changes the mean");
    c.label("split");
  }
  c.label(cls);
  if (o.do_calib_imu_intrinsics)
    c.label(o.imu_model == StateOptions::ImuModel::KALIBR ? "kalibr intrinsics" : "rpng intrinsics");
  c.nontrivial(st.wmax > 0 && rd.size() > 2);
  c.sample << cls << ", " << N << " entries (" << n << " moving), " << rd.size() << " readings over " << t1 - t0 << " s, relative error " << worst;
}
