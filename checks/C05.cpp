// C05: high-rate predictions equal the propagation of the inertial state and leave the filter alone.
#include "propkit.h"
using namespace pk;
using namespace ov_msckf;

namespace {
/// one interval of the discrete propagation of (q p v bg ba) with averaged readings; noise enters like a bias during the interval
struct Model {
  Comp comp;
  double grav;
  Model(const StatePtr &s, double g) : comp(s), grav(g) {}
  VectorXd step(const VectorXd &x, const ImuData &a, const ImuData &b, const VectorXd &noise) const {
    Comp c = comp;
    c.bg = x.segment(10, 3) + noise.head(3);
    c.ba = x.segment(13, 3) + noise.tail(3);
    double dt = b.timestamp - a.timestamp;
    Vector3d w = 0.5 * (c.w(a) + c.w(b)), acc = 0.5 * (c.a(a) + c.a(b)), g(0, 0, grav);
    Matrix3d R = jplR(Vector4d(x.head(4) / x.head(4).norm()));
    VectorXd y = x;
    y.head(4) = jplq(Matrix3d(expR(Vector3d(-w * dt)) * R));
    y.segment(4, 3) = x.segment(4, 3) + x.segment(7, 3) * dt + 0.5 * dt * dt * (R.transpose() * acc - g);
    y.segment(7, 3) = x.segment(7, 3) + dt * (R.transpose() * acc - g);
    return y;
  }
};
VectorXd boxplus(const VectorXd &x, const VectorXd &d) {
  VectorXd y = x;
  y.head(4) = jplq(Matrix3d(expR(Vector3d(-d.head(3))) * jplR(x.head(4))));
  y.tail(12) += d.tail(12);
  return y;
}
VectorXd boxminus(const VectorXd &y, const VectorXd &x) { // R(y) = (I - [d x]) R(x)
  VectorXd d(15);
  d.head(3) = -logR(Matrix3d(jplR(y.head(4)) * jplR(x.head(4)).transpose()));
  d.tail(12) = y.tail(12) - x.tail(12);
  return d;
}
struct Belief {
  VectorXd x;
  MatrixXd P;
  Vector3d w;
  double lastdt = 0;
};
void advance(Belief &b, const Model &m, const std::vector<ImuData> &rd, const NoiseManager &n) {
  for (size_t i = 0; i + 1 < rd.size(); i++) {
    double dt = rd[i + 1].timestamp - rd[i].timestamp;
    // differentiate about zero position and velocity: the result depends on them linearly
    VectorXd x0 = b.x;
    VectorXd y0 = m.step(x0, rd[i], rd[i + 1], VectorXd::Zero(6));
    VectorXd z = x0;
    z.segment(4, 6).setZero();
    VectorXd yz = m.step(z, rd[i], rd[i + 1], VectorXd::Zero(6));
    MatrixXd F = numdiff([&](const VectorXd &d) { return VectorXd(boxminus(m.step(boxplus(z, d), rd[i], rd[i + 1], VectorXd::Zero(6)), yz)); }, 15, 15, 1e-3);
    MatrixXd G = numdiff([&](const VectorXd &d) { return VectorXd(boxminus(m.step(z, rd[i], rd[i + 1], d), yz)); }, 6, 15, 1e-3);
    MatrixXd Q = G.leftCols(3) * G.leftCols(3).transpose() * n.sigma_w_2 / dt + G.rightCols(3) * G.rightCols(3).transpose() * n.sigma_a_2 / dt;
    for (int k = 0; k < 3; k++) {
      Q(9 + k, 9 + k) += n.sigma_wb_2 * dt;
      Q(12 + k, 12 + k) += n.sigma_ab_2 * dt;
    }
    b.P = F * b.P * F.transpose() + Q;
    b.P = 0.5 * (b.P + b.P.transpose()).eval();
    b.x = y0;
    b.lastdt = dt;
  }
  b.w = m.comp.w(rd.back());
}
/// what the prediction returns: q, p, velocity in the local frame, angular velocity, and the covariance of q, p and the velocity
void output(const Belief &b, VectorXd &x, MatrixXd &P) {
  Matrix3d R = jplR(b.x.head(4));
  x.resize(13);
  x << b.x.head(7), R * b.x.segment(7, 3), b.w;
  MatrixXd T = MatrixXd::Identity(9, 15);
  T.block(6, 6, 3, 3) = R;
  P = T * b.P * T.transpose();
}
bool usable(const std::vector<ImuData> &d, double t0, double t1) {
  if (t1 - t0 < 1e-5 || t0 < d.front().timestamp || t1 > d.back().timestamp)
    return false;
  for (auto &x : d)
    if ((x.timestamp != t0 && std::abs(x.timestamp - t0) < 2e-6) || (x.timestamp != t1 && std::abs(x.timestamp - t1) < 2e-6))
      return false;
  return true;
}
} // namespace

PBT_PART(predict, 200, 1000, 30000) {
  ov_core::Printer::setPrintLevel("SILENT");
  StateOptions o;
  auto s = gen_state(t, o);
  Rng g(t.u32());
  auto st = gen_stream(t, 20, 60);
  double grav = t.pick(std::vector<double>{9.81, 9.81, 1.62});
  NoiseManager nm;
  double sc = t.pick(std::vector<double>{1, 1, 100, 0.01});
  nm.sigma_w = 1e-3 * sc;
  nm.sigma_a = 1e-2 * sc;
  nm.sigma_wb = 1e-4 * sc;
  nm.sigma_ab = 1e-3 * sc;
  nm.sigma_w_2 = nm.sigma_w * nm.sigma_w;
  nm.sigma_a_2 = nm.sigma_a * nm.sigma_a;
  nm.sigma_wb_2 = nm.sigma_wb * nm.sigma_wb;
  nm.sigma_ab_2 = nm.sigma_ab * nm.sigma_ab;
  Propagator prop(nm, grav);
  auto &D = st.data;
  double off = s->_calib_dt_CAMtoIMU->value()(0);
  size_t fed = 0;
  auto feed_to = [&](size_t n) {
    for (; fed < n && fed < D.size(); fed++)
      prop.feed_imu(D[fed], -1);
  };
  // start on a reading or between
  double start = t.flip(0.4) ? D[t.range(0, 4)].timestamp : D[0].timestamp + (D[5].timestamp - D[0].timestamp) * t.real(0.02, 0.98);
  s->_timestamp = start - off;
  { // a joint covariance with all calibrations
    auto vars = fresh_variables(s);
    int n = s->max_covariance_size();
    VectorXd sd = VectorXd::Constant(n, 0.01);
    sd.head(15) << VectorXd::Constant(3, 0.01), VectorXd::Constant(3, 0.1), VectorXd::Constant(3, 0.05), VectorXd::Constant(3, 1e-3), VectorXd::Constant(3, 1e-2);
    sd *= t.pick(std::vector<double>{1, 1, 0.01, 10});
    set_covariance(s, g.cov(sd));
  }
  double held = s->_timestamp + off; // inertial time the filter state stands at
  int requests = 0, moves = 0, later = 0;
  int epochs = t.range(1, 3);
  for (int e = 0; e < epochs; e++) {
    // requests from this filter state
    Belief b0, chain;
    b0.x = s->_imu->value();
    b0.P = StateHelper::get_marginal_covariance(s, {s->_imu});
    chain = b0;
    double at = held;
    Model m(s, grav);
    int nreq = t.range(1, 4);
    for (int k = 0; k < nreq; k++) {
      size_t i1 = 0;
      while (i1 < D.size() && D[i1].timestamp <= at)
        i1++;
      if (i1 >= D.size())
        break;
      i1 = std::min(D.size() - 1, i1 + t.range(0, 8));
      double ask = D[i1].timestamp;
      if (t.flip(0.5))
        ask = D[i1 - 1].timestamp + (D[i1].timestamp - D[i1 - 1].timestamp) * t.real(0.05, 0.95);
      bool live = t.flip(0.6);
      feed_to(live ? i1 + 1 : D.size()); // the request is for the time of the newest reading, or readings run ahead
      if (!usable(D, at, ask) || !usable(D, held, ask))
        break;
      std::vector<VectorXd> before;
      auto vars = all_variables(s);
      for (auto &v : vars) {
        before.push_back(v->value());
        before.push_back(v->fej());
      }
      MatrixXd P0 = StateHelper::get_full_covariance(s);
      double ts0 = s->_timestamp;
      size_t nclones = s->_clones_IMU.size();
      Eigen::Matrix<double, 13, 1> y;
      Eigen::Matrix<double, 12, 12> C;
      bool ok = prop.fast_state_propagate(s, ask, y, C);
      REQUIRE(ok, "no prediction for a time covered by readings");
      // filter untouched
      REQUIRE(s->_timestamp == ts0 && s->_clones_IMU.size() == nclones && all_variables(s).size() == vars.size(), "a prediction changed the clock or the clones");
      for (size_t i = 0; i < vars.size(); i++)
        REQUIRE(vars[i]->value() == before[2 * i] && vars[i]->fej() == before[2 * i + 1], "a prediction changed variable " << i);
      REQUIRE(StateHelper::get_full_covariance(s) == P0, "a prediction changed the covariance");
      // reference: straight from the filter state, and through the earlier requests
      Belief direct = b0;
      advance(direct, m, cut(D, held, ask), nm);
      advance(chain, m, cut(D, at, ask), nm);
      VectorXd xd, xc;
      MatrixXd Pd, Pc;
      output(direct, xd, Pd);
      output(chain, xc, Pc);
      VectorXd sdv = Pc.diagonal().cwiseSqrt();
      double n = D.size();
      double tq = 1e-11 * n + 1.5 * rdist(jplR(xd.head(4)), jplR(xc.head(4)));
      double tp = (1e-12 * n) * (1 + xc.segment(4, 3).norm()) + 1.5 * (xd.segment(4, 3) - xc.segment(4, 3)).norm();
      double tv = (1e-12 * n) * (1 + xc.segment(7, 3).norm()) + 1.5 * (xd.segment(7, 3) - xc.segment(7, 3)).norm();
      double eq = rdist(jplR(Vector4d(y.head(4))), jplR(xc.head(4))), ep = (y.segment(4, 3) - xc.segment(4, 3)).norm(), ev = (y.segment(7, 3) - xc.segment(7, 3)).norm();
      c.metric("frac_tol:orientation", eq / tq);
      c.metric("frac_tol:position", ep / tp);
      c.metric("frac_tol:velocity", ev / tv);
      REQUIRE(eq <= tq, "request " << k << ": orientation off by " << eq << " (tolerance " << tq << ")");
      REQUIRE(ep <= tp, "request " << k << ": position off by " << ep << " (tolerance " << tp << ")");
      REQUIRE(ev <= tv, "request " << k << ": local velocity off by " << ev << " (tolerance " << tv << ")");
      double ew = (y.tail(3) - xc.tail(3)).norm();
      REQUIRE(ew <= 1e-11 * (1 + xc.tail(3).norm()), "request " << k << ": angular velocity off by " << ew);
      MatrixXd S = sdv.cwiseInverse().asDiagonal();
      double tc = 2e-7 + 1.5 * (S * (Pd - Pc) * S).cwiseAbs().maxCoeff();
      double ec = (S * (MatrixXd(C.topLeftCorner(9, 9)) - Pc) * S).cwiseAbs().maxCoeff();
      c.metric("frac_tol:covariance", ec / tc);
      REQUIRE(ec <= tc, "request " << k << ": covariance off by " << ec << " relative to its standard deviations (tolerance " << tc << ")");
      REQUIRE((C - C.transpose()).cwiseAbs().maxCoeff() <= 1e-12 * C.cwiseAbs().maxCoeff(), "covariance not symmetric");
      for (int q = 0; q < 3; q++)
        REQUIRE(std::isfinite(C(9 + q, 9 + q)) && C(9 + q, 9 + q) >= nm.sigma_w_2 * 0.99, "variance of the angular velocity " << C(9 + q, 9 + q));
      requests++;
      if (k > 0)
        later++;
      if (off != 0)
        c.label("time offset");
      if (k > 0 && off != 0)
        c.label("follow-up request with a time offset");
      c.sample << "ask +" << (ask - held) << " s; ";
      at = ask;
    }
    // the filter moves on: propagation and an update
    feed_to(D.size());
    double nt = held + (D.back().timestamp - held) * t.real(0.02, 0.3);
    double ts = nt - off;
    if (ts <= s->_timestamp || !usable(D, held, ts + off))
      break;
    prop.propagate_and_clone(s, ts);
    held = ts + off;
    if (t.flip(0.7)) {
      VectorXd x = s->_imu->value();
      VectorXd d(15);
      d << VectorXd(g.mat(3, 1, 0.01)), VectorXd(g.mat(3, 1, 0.1)), VectorXd(g.mat(3, 1, 0.05)), VectorXd(g.mat(3, 1, 1e-3)), VectorXd(g.mat(3, 1, 1e-2));
      s->_imu->set_value(boxplus(x, d));
      c.label("update");
      if (o.do_calib_camera_timeoffset && t.flip()) { // the inertial state still stands where the propagation ended
        VectorXd v(1);
        v << off + t.sym(2e-3);
        s->_calib_dt_CAMtoIMU->set_value(v);
        off = v(0);
        c.label("offset changed");
      }
    }
    prop.invalidate_cache();
    moves++;
  }
  if (!requests)
    throw pbt::Discard("no usable request");
  if (moves)
    c.label("filter moved");
  c.nontrivial(st.wmax > 0 && later > 0);
}

// The whole estimator: after every image, predictions start from the updated state.
#include "simkit.h"
PBT_PART(system, 40, 60, 1500) {
  ov_core::Printer::setPrintLevel("ERROR");
  sim::World w;
  w.motion = sim::gen_motion(t.u32());
  int nc = t.range(1, 2);
  w.cams = sim::gen_cams(t.u32(), nc);
  w.t0 = t.pick(std::vector<double>{10, 1403636579.763555});
  w.dur = 2.0;
  w.imu_rate = t.pick(std::vector<double>{100, 200});
  w.dt_off = t.flip(0.3) ? 0 : t.sym(0.03);
  w.num_pts = 20;
  w.seed = t.u32();
  w.spix = 1;
  w.sw = 1.7e-4;
  w.sa = 2e-3;
  Rng g(t.u32());
  w.bg = g.mat(3, 1, 0.02);
  w.ba = g.mat(3, 1, 0.1);
  w.make();
  StateOptions so;
  so.do_fej = t.flip();
  so.integration_method = t.pick(std::vector<StateOptions::IntegrationMethod>{StateOptions::RK4, StateOptions::DISCRETE, StateOptions::ANALYTICAL});
  so.max_clone_size = t.range(5, 8);
  so.do_calib_camera_timeoffset = t.flip();
  so.do_calib_camera_pose = t.flip();
  so.max_slam_features = t.flip() ? 0 : 10;
  auto p = sim::options_for(w, so);
  p.dt_slam_delay = 0.5;
  if (so.do_calib_camera_timeoffset)
    p.calib_camimu_dt += t.sym(0.005);
  sim::square_noises(p);
  auto po = sim::copy_options(p);
  sim::VioManager sys(po);
  double tinit = w.frames[2].t;
  auto x0 = sim::init_state(w, tinit);
  sys.initialize_with_gt(x0);
  auto s = sys.get_state();
  double held = NAN; // inertial time of the filter state: its clock plus the offset used to propagate there
  size_t every = t.pick(std::vector<size_t>{7, 11, 5});
  int checked = 0, frames = 0;
  double lastdt = s->_calib_dt_CAMtoIMU->value()(0);
  std::vector<ImuData> fed;
  bool fresh = false;
  double at = 0;
  for (auto &e : sim::schedule(w, tinit)) {
    if (e.imu) {
      sys.feed_measurement_imu(w.imu[e.i]);
      fed.push_back(w.imu[e.i]);
      // like the live visualiser: ask for the time of the newest reading, sometimes
      if (!std::isnan(held) && w.imu[e.i].timestamp > held && (e.i % every) == 0) {
        double ask = w.imu[e.i].timestamp;
        if (!usable(fed, held, ask))
          continue;
        Eigen::Matrix<double, 13, 1> y;
        Eigen::Matrix<double, 12, 12> C;
        REQUIRE(sys.get_propagator()->fast_state_propagate(s, ask, y, C), "no prediction for the time of the newest reading");
        Belief b;
        b.x = s->_imu->value();
        b.P = StateHelper::get_marginal_covariance(s, {s->_imu});
        Model m(s, p.gravity_mag);
        advance(b, m, cut(fed, held, ask), p.imu_noises);
        VectorXd xr;
        MatrixXd Pr;
        output(b, xr, Pr);
        double d = ask - held;
        double eq = rdist(jplR(Vector4d(y.head(4))), jplR(xr.head(4))), ep = (y.segment(4, 3) - xr.segment(4, 3)).norm(), ev = (y.segment(7, 3) - xr.segment(7, 3)).norm();
        // requests fall on readings, only the first interval starts between two: chaining makes no difference
        VectorXd sd = Pr.diagonal().cwiseSqrt();
        double ec = 0;
        for (int i = 0; i < 9; i++)
          for (int j = 0; j < 9; j++)
            ec = std::max(ec, std::abs(C(i, j) - Pr(i, j)) / (sd(i) * sd(j)));
        c.metric("frac_tol:system mean", std::max(eq, std::max(ep, ev)) / 1e-8);
        c.metric("frac_tol:system covariance", ec / 1e-4);
        REQUIRE(eq < 1e-8 && ep < 1e-8 && ev < 1e-8, "prediction " << d << " s after frame " << frames << ": orientation, position, velocity off by " << eq << ", " << ep << ", " << ev);
        REQUIRE(ec < 1e-4, "covariance of the prediction " << d << " s after frame " << frames << " off by " << ec << " relative");
        checked++;
        at = ask;
        (void)at;
        (void)fresh;
      }
    } else {
      auto &F = w.frames[e.i];
      if (F.t + s->_calib_dt_CAMtoIMU->value()(0) + 0.005 > fed.back().timestamp)
        continue;
      double off_new = s->_calib_dt_CAMtoIMU->value()(0);
      sys.feed_measurement_simulation(F.t, F.cams, F.feats);
      REQUIRE(s->_timestamp == F.t, "the image was not processed");
      held = F.t + off_new;
      lastdt = off_new;
      (void)lastdt;
      frames++;
    }
  }
  if (checked < 3)
    throw pbt::Discard("few requests");
  c.label(so.do_calib_camera_timeoffset ? "offset estimated" : "offset fixed");
  c.sample << frames << " frames, " << checked << " predictions";
  c.nontrivial(checked > 10);
}
