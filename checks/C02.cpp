// C02: the mean after propagation follows the inertial kinematics to the order of the chosen method.
#include "propkit.h"
using namespace pk;
using namespace ov_msckf;

PBT_PART(mean, 160, 6000, 150000) {
  ov_core::Printer::setPrintLevel("SILENT");
  StateOptions o;
  bool ideal = false;
  auto s = gen_state(t, o, &ideal);
  auto st = gen_stream(t, 12, 60);
  double grav = t.pick(std::vector<double>{9.81, 9.81, 1.62, 0.0});
  NoiseManager nm;
  nm.sigma_w = 1e-3;
  nm.sigma_a = 1e-2;
  nm.sigma_wb = 1e-4;
  nm.sigma_ab = 1e-3;
  nm.sigma_w_2 = 1e-6;
  nm.sigma_a_2 = 1e-4;
  nm.sigma_wb_2 = 1e-8;
  nm.sigma_ab_2 = 1e-6;
  Propagator prop(nm, grav);
  for (auto &d : st.data)
    prop.feed_imu(d, -1);
  double off = s->_calib_dt_CAMtoIMU->value()(0);
  double lo = st.data.front().timestamp, hi = st.data.back().timestamp, span = hi - lo;
  auto at = [&](double u, bool on) { // a time inside the stream, on a reading or between
    double x = lo + span * u;
    if (on)
      for (auto &d : st.data)
        if (d.timestamp >= x)
          return d.timestamp;
    return x;
  };
  double cur = at(t.real(0, 0.4), t.flip(0.4)); // time of the filter on the clock of the readings
  s->_timestamp = cur - off;
  double last_off = off;
  int steps = t.range(1, 4);
  double moved = 0;
  for (int k = 0; k < steps; k++) {
    double next = k + 1 == steps && t.flip(0.3) ? at(t.real(0.5, 1), t.flip(0.4)) : cur + (hi - cur) * t.real(0.05, 0.6);
    double ts = next - off;
    double t0 = s->_timestamp + last_off, t1 = ts + off;
    if (t0 < lo || t1 > hi || ts <= s->_timestamp || t1 - t0 < 1e-6)
      break;
    // ends within rounding of a reading make degenerate intervals
    auto rd = cut(st.data, t0, t1);
    REQUIRE(rd.size() >= 2, "reference has no readings");
    bool degenerate = false;
    for (size_t i = 0; i + 1 < rd.size(); i++)
      degenerate = degenerate || rd[i + 1].timestamp - rd[i].timestamp < 2e-7;
    for (auto &d : st.data)
      degenerate = degenerate || (d.timestamp != t0 && std::abs(d.timestamp - t0) < 2e-7) || (d.timestamp != t1 && std::abs(d.timestamp - t1) < 2e-7);
    if (degenerate)
      break;
    VectorXd x0 = s->_imu->value();
    std::vector<VectorXd> other;
    auto vars = fresh_variables(s);
    for (auto &v : vars)
      other.push_back(v->value());
    VectorXd dw = s->_calib_imu_dw->value(), da = s->_calib_imu_da->value(), tg = s->_calib_imu_tg->value(), rg = s->_calib_imu_GYROtoIMU->value(), ra = s->_calib_imu_ACCtoIMU->value();
    std::map<double, VectorXd> clones;
    for (auto &c2 : s->_clones_IMU)
      clones[c2.first] = c2.second->value();
    Comp comp(s, ideal);
    Nav y = nav_of(x0);
    double tq = 5e-12, tv = 5e-12 * (1 + x0.segment(7, 3).norm()), tp = 5e-12 * (1 + x0.segment(4, 3).norm());
    for (size_t i = 0; i + 1 < rd.size(); i++) {
      double dt = rd[i + 1].timestamp - rd[i].timestamp;
      Vector3d wa = comp.w(rd[i]), wb = comp.w(rd[i + 1]), aa = comp.a(rd[i]), ab = comp.a(rd[i + 1]);
      double W = std::max(wa.norm(), wb.norm()) * dt, D = (wb - wa).norm() * dt, A = std::max(aa.norm(), ab.norm()), DA = (ab - aa).norm();
      double Lq = tq, Lv = tv;
      if (o.integration_method == StateOptions::RK4) {
        y = integrate(y, wa, aa, wb, ab, dt, grav);
        double e5 = W * W * W * W * W / 120 + W * W * W * D / 40 + W * D * D / 40, e4 = W * W * W * W / 60 + W * W * D / 40 + D * D / 40, e3 = W * W * W / 60 + W * D / 40,
               d3 = W * W * W / 60 + W * D / 40, d2 = W * W / 60 + D / 40;
        tq += 1e-12 + e5;
        tv += 1e-15 * (1 + A) + (A * e4 + DA * d3) * dt + Lq * A * dt;
        tp += 1e-15 + (A * e3 + DA * d2) * dt * dt + Lv * dt + 0.5 * Lq * A * dt * dt;
      } else {
        Vector3d w = 0.5 * (wa + wb), a = 0.5 * (aa + ab);
        y = integrate(y, w, a, w, a, dt, grav);
        double wn = w.norm(), an = a.norm();
        // discrete: acceleration not turned during the interval; closed form: crude only for very slow rotation
        double q = o.integration_method == StateOptions::DISCRETE || wn < 0.0088 ? 1 : 0;
        double cancel = 1e-15 / std::max(wn, 1e-3); // cancellation of the closed forms for slow rotation
        tq += 1e-12;
        tv += 1e-15 * (1 + an) + q * 0.52 * wn * an * dt * dt + cancel * an + Lq * an * dt;
        tp += 1e-15 + q * 0.36 * wn * an * dt * dt * dt + cancel * an * (dt + 1 / std::max(wn, 1e-3)) + Lv * dt + 0.5 * Lq * an * dt * dt;
      }
    }
    prop.propagate_and_clone(s, ts);
    // clock and clone
    REQUIRE(s->_timestamp == ts, "clock at " << s->_timestamp << " after propagating to " << ts);
    REQUIRE(s->_clones_IMU.size() == clones.size() + 1 && s->_clones_IMU.count(ts) == 1, "no single new clone at the requested time");
    for (auto &c2 : clones)
      REQUIRE(s->_clones_IMU.at(c2.first)->value() == c2.second, "an earlier clone changed");
    VectorXd x1 = s->_imu->value();
    REQUIRE(s->_clones_IMU.at(ts)->value() == VectorXd(x1.head(7)), "clone differs from the propagated pose");
    REQUIRE(VectorXd(s->_imu->fej()) == x1, "first estimate after propagation is not the propagated one");
    REQUIRE(s->_clones_IMU.at(ts)->fej() == VectorXd(x1.head(7)), "first estimate of the clone is not the propagated pose");
    // unchanged parts
    REQUIRE(VectorXd(x1.tail(6)) == VectorXd(x0.tail(6)), "biases changed");
    for (size_t i = 1; i < vars.size(); i++)
      REQUIRE(vars[i]->value() == other[i], "calibration parameter " << i << " changed");
    REQUIRE(dw == s->_calib_imu_dw->value() && da == s->_calib_imu_da->value() && tg == s->_calib_imu_tg->value() && rg == s->_calib_imu_GYROtoIMU->value() && ra == s->_calib_imu_ACCtoIMU->value(),
            "inertial calibration changed");
    // mean
    Vector4d q1 = x1.head(4);
    REQUIRE(std::abs(q1.norm() - 1) < 1e-12, "quaternion norm " << q1.norm());
    static const char *names[] = {"discrete", "rk4", "analytic"};
    std::string m = names[o.integration_method == StateOptions::DISCRETE ? 0 : o.integration_method == StateOptions::RK4 ? 1 : 2];
    double eq = rdist(jplR(q1), y.R.cast<double>()), ev = (x1.segment(7, 3) - y.v.cast<double>()).norm(), ep = (x1.segment(4, 3) - y.p.cast<double>()).norm();
    tq = std::max(tq, 5e-12 + 1e-12 * rd.size());
    tv += 4e-16 * rd.size() * (1 + x1.segment(7, 3).norm());
    tp += 4e-16 * rd.size() * (1 + x1.segment(4, 3).norm());
    c.metric("frac_tol:orientation " + m, eq / tq);
    c.metric("frac_tol:velocity " + m, ev / tv);
    c.metric("frac_tol:position " + m, ep / tp);
    REQUIRE(eq <= tq, m << ": orientation off by " << eq << " (tolerance " << tq << ") over " << t1 - t0 << " s with " << rd.size() << " readings");
    REQUIRE(ev <= tv, m << ": velocity off by " << ev << " (tolerance " << tv << ") over " << t1 - t0 << " s with " << rd.size() << " readings");
    REQUIRE(ep <= tp, m << ": position off by " << ep << " (tolerance " << tp << ") over " << t1 - t0 << " s with " << rd.size() << " readings");
    c.label(m);
    moved = std::max(moved, (double)rd.size());
    c.sample << m << " over " << (t1 - t0) << " s, " << rd.size() << " readings, offset " << off << "; ";
    // an update may change the time offset, the state and the biases
    last_off = off;
    cur = t1;
    if (t.flip(0.4)) {
      VectorXd x = x1;
      x.segment(10, 3) += Vector3d(0.01 * t.sym(1), 0.01 * t.sym(1), 0.01 * t.sym(1));
      x.segment(7, 3) += Vector3d(t.sym(0.1), t.sym(0.1), t.sym(0.1));
      s->_imu->set_value(x); // first estimate stays
      if (o.do_calib_camera_timeoffset && t.flip()) {
        VectorXd v(1);
        v << off + t.sym(2e-3);
        s->_calib_dt_CAMtoIMU->set_value(v);
        off = v(0);
        c.label("offset changed");
      }
    }
  }
  if (moved == 0)
    throw pbt::Discard("no usable interval");
  c.nontrivial(st.wmax > 0 && moved > 2);
}
