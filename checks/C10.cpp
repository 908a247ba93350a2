// C10: first-estimate linearisation keeps global translation and rotation about gravity unobservable.
#include "featkit.h"
#include "simkit.h"
#include "update/UpdaterHelper.h"
using namespace fk;
using pk::gen_state;
using pk::gen_stream;
using namespace ov_msckf;

namespace {
/// change of a pose error (orientation, position) under a global translation (first three columns) and a rotation about gravity (fourth)
MatrixXd null_pose(const VectorXd &x) {
  MatrixXd N = MatrixXd::Zero(6, 4);
  Vector3d e3(0, 0, 1);
  N.block(3, 0, 3, 3).setIdentity();
  N.block(0, 3, 3, 1) = jplR(Vector4d(x.head(4) / x.head(4).norm())) * e3;
  N.block(3, 3, 3, 1) = e3.cross(Vector3d(x.segment(4, 3)));
  return N;
}
MatrixXd null_imu(const VectorXd &x) {
  MatrixXd N = MatrixXd::Zero(15, 4);
  N.topRows(6) = null_pose(x);
  N.block(6, 3, 3, 1) = Vector3d(0, 0, 1).cross(Vector3d(x.segment(7, 3)));
  return N;
}
/// of a point given by globally expressed parameters
MatrixXd null_point(Rep rep, const Vector3d &p) {
  MatrixXd N = MatrixXd::Zero(3, 4);
  N.leftCols(3).setIdentity();
  N.col(3) = Vector3d(0, 0, 1).cross(p);
  VectorXd lam = to_params(rep, p);
  double sc = 1e-3 * std::min(1.0, 3 / p.norm());
  VectorXd st = VectorXd::Constant(3, sc);
  if (rep == Rep::GLOBAL_FULL_INVERSE_DEPTH)
    st(2) *= lam(2);
  MatrixXd D = numdiff([&](const VectorXd &d) { return VectorXd(from_params(rep, lam + VectorXd(st.asDiagonal() * d))); }, 3, 3, 1.0);
  return st.asDiagonal() * MatrixXd(D.fullPivLu().solve(N));
}
/// the direction for the whole state, at first estimates
MatrixXd null_state(const StatePtr &s) {
  MatrixXd N = MatrixXd::Zero(s->max_covariance_size(), 4);
  N.topRows(15) = null_imu(s->_imu->fej());
  for (auto &c : s->_clones_IMU)
    N.middleRows(c.second->id(), 6) = null_pose(c.second->fej());
  for (auto &f : s->_features_SLAM)
    if (!anchored(f.second->_feat_representation))
      N.middleRows(f.second->id(), 3) = null_point(f.second->_feat_representation, f.second->get_xyz(true));
  return N;
}
} // namespace

PBT_PART(measurement, 96, 20000, 400000) {
  ov_core::Printer::setPrintLevel("SILENT");
  bool fej = t.flip(0.7);
  Rig r = gen_rig(t, 2, 6, 1.0, fej, fej);
  auto &s = r.s;
  auto &g = r.g;
  if (!fej && t.flip()) // irrelevant first estimates
    for (auto &c2 : s->_clones_IMU)
      c2.second->set_fej(corrected(c2.second, c2.second->value(), VectorXd(0.01 * g.gvec(6))));
  Vector3d pG = gen_point(r, 4, 10), pF = fej ? Vector3d(pG + Vector3d(g.mat(3, 1, 0.05))) : pG;
  Rep rep = t.pick(reps());
  UpdaterHelper::UpdaterHelperFeature f;
  f.featid = 5;
  f.feat_representation = rep;
  f.p_FinG = pG;
  f.p_FinG_fej = pF;
  double keep = t.pick(std::vector<double>{1, 0.6});
  std::vector<std::pair<int, double>> meas;
  for (int k = 0; k < r.o.num_cameras; k++)
    for (double tm : r.times) {
      Vector3d P = in_camera(r, k, tm, pG);
      if (P(2) < 1 || P.head(2).norm() / P(2) > 1.0 || g.sym() > 2 * keep - 1)
        continue;
      Eigen::VectorXf u = Vector2d(predict(r, k, tm, pG) + Vector2d(g.mat(2, 1, 2))).cast<float>();
      f.uvs[k].push_back(u);
      f.uvs_norm[k].push_back(u);
      f.timestamps[k].push_back(tm);
      meas.push_back({k, tm});
    }
  if (meas.empty())
    throw pbt::Discard("no measurement in view");
  if (anchored(rep)) {
    auto &m = meas[t.range(0, (int)meas.size() - 1)];
    f.anchor_cam_id = m.first;
    f.anchor_clone_timestamp = m.second;
    f.p_FinA = in_camera(r, m.first, m.second, pG);
    f.p_FinA_fej = f.p_FinA + (fej ? Vector3d(g.mat(3, 1, 0.05)) : Vector3d::Zero());
    f.p_FinG.setConstant(t.flip() ? NAN : 1);
    f.p_FinG_fej = f.p_FinG;
  }
  MatrixXd Hf, Hx;
  VectorXd res;
  std::vector<TypePtr> order;
  UpdaterHelper::get_feature_jacobian_full(s, f, Hf, Hx, res, order);
  MatrixXd N = MatrixXd::Zero(Hx.cols(), 4);
  int col = 0;
  for (auto &v : order) {
    for (auto &cl : s->_clones_IMU)
      if (cl.second == v)
        N.middleRows(col, 6) = null_pose(fej ? v->fej() : v->value());
    col += v->size();
  }
  MatrixXd E = Hx * N;
  if (!anchored(rep)) {
    Vector3d p = fej ? pF : pG;
    if (rep == Rep::GLOBAL_FULL_INVERSE_DEPTH && p.head(2).norm() / p.norm() < 1e-2)
      throw pbt::Discard("singular spherical parameters");
    E += Hf * null_point(rep, p);
  }
  // scale: what the directions do to one pose alone
  double sc = std::max(1.0, (Hx.cwiseAbs() * N.cwiseAbs()).maxCoeff()); // a point seen only by its anchor: nothing at all
  double tol = 1e-8;
  double e = E.cwiseAbs().maxCoeff() / sc;
  c.metric("frac_tol:measurement", e / tol);
  REQUIRE(e <= tol, LR::as_string(rep) << ": the measurement is sensitive to a " << (E.leftCols(3).cwiseAbs().maxCoeff() / sc > tol ? "translation" : "rotation about gravity") << " of everything: " << e
                                       << " relative");
  // and the part left after the feature's position is marginalised
  MatrixXd H2 = Hx, F2 = Hf;
  VectorXd r2 = res;
  if (Hf.rows() > Hf.cols()) {
    UpdaterHelper::nullspace_project_inplace(F2, H2, r2);
    double e2 = (H2 * N).cwiseAbs().maxCoeff() / sc;
    c.metric("frac_tol:projected", e2 / tol);
    REQUIRE(e2 <= tol, LR::as_string(rep) << ": the marginalised measurement is sensitive to the unobservable directions: " << e2 << " relative");
    c.label("projected");
  }
  c.label(LR::as_string(rep));
  c.label(fej ? "first estimates" : "current estimates");
  c.sample << LR::as_string(rep) << ", " << meas.size() << " measurements";
  c.nontrivial(meas.size() >= 2);
}

PBT_PART(propagation, 160, 3000, 60000) {
  ov_core::Printer::setPrintLevel("SILENT");
  StateOptions o;
  auto s = gen_state(t, o);
  if (!o.do_fej && t.flip(0.8))
    s->_options.do_fej = o.do_fej = true;
  Rng g(t.u32());
  auto st = gen_stream(t, 12, 40);
  double grav = t.pick(std::vector<double>{9.81, 9.81, 1.62});
  NoiseManager nm;
  double off = s->_calib_dt_CAMtoIMU->value()(0);
  double lo = st.data.front().timestamp, hi = st.data.back().timestamp, cur = lo + (hi - lo) * t.real(0, 0.3);
  Propagator prop(nm, grav); // carries the mean through the history
  for (auto &d : st.data)
    prop.feed_imu(d, -1);
  s->_timestamp = cur - off;
  // first estimate of the newest state is what the last propagation predicted, the value has been updated since
  int steps = t.range(1, 3), done = 0;
  for (int k = 0; k < steps; k++) {
    if (o.do_fej) {
      VectorXd d = 0.02 * g.gvec(15);
      s->_imu->set_value(corrected(s->_imu, s->_imu->value(), d));
      VectorXd x = s->_imu->value(), f0 = s->_imu->fej();
      if (t.flip(0.3))
        c.label("first estimate apart");
    } else
      s->_imu->set_fej(s->_imu->value());
    double next = cur + (hi - cur) * t.real(0.1, 0.5);
    if (next - cur < 1e-3)
      break;
    double ts = next - off;
    MatrixXd N0 = null_imu(o.do_fej ? s->_imu->fej() : s->_imu->value());
    int n = s->max_covariance_size();
    // covariance of zero, and of one along each direction: the difference shows where propagation moves the direction
    auto run = [&](const VectorXd &v) {
      auto z = copy_state(s);
      MatrixXd P = v * v.transpose();
      set_covariance(z, P);
      Propagator pr(nm, grav);
      for (auto &d : st.data)
        pr.feed_imu(d, -1);
      pr.propagate_and_clone(z, ts);
      return z;
    };
    auto base = run(VectorXd::Zero(n));
    MatrixXd Q = StateHelper::get_full_covariance(base);
    MatrixXd N1 = null_imu(base->_imu->fej());
    MatrixXd NC = null_pose(base->_clones_IMU.at(ts)->fej());
    for (int j = 0; j < 4; j++) {
      VectorXd v = VectorXd::Zero(n);
      v.head(15) = N0.col(j);
      auto z = run(v);
      MatrixXd D = StateHelper::get_full_covariance(z) - Q;
      VectorXd w = VectorXd::Zero(D.rows());
      w.head(15) = N1.col(j);
      int id = z->_clones_IMU.at(ts)->id();
      w.segment(id, 6) = NC.col(j);
      for (auto &c2 : s->_clones_IMU) { // older clones stay where they were: not part of this direction's state here
        (void)c2;
      }
      MatrixXd E = D - w * w.transpose();
      // bookkeeping of clones older than this propagation had zero covariance
      double sc = std::max(1.0, w.squaredNorm()) * (1 + Q.cwiseAbs().maxCoeff());
      double e = E.cwiseAbs().maxCoeff() / sc;
      c.metric("frac_tol:propagation", e / 1e-9);
      REQUIRE(e <= 1e-9, "propagation does not keep the " << (j == 3 ? "rotation about gravity" : "translation") << " direction: relative " << e);
    }
    prop.propagate_and_clone(s, ts);
    cur = next;
    done++;
  }
  if (!done)
    throw pbt::Discard("no usable interval");
  static const char *names[] = {"discrete", "rk4", "analytic"};
  c.label(names[o.integration_method == StateOptions::DISCRETE ? 0 : o.integration_method == StateOptions::RK4 ? 1 : 2]);
  c.label(o.do_fej ? "first estimates" : "current estimates");
  c.sample << done << " intervals, fej " << o.do_fej;
  c.nontrivial(o.do_fej);
}

// The whole estimator twice: more initial uncertainty along an unobservable direction must change neither any estimate nor anything else of the covariance.
PBT_PART(system, 60, 160, 2500) {
  ov_core::Printer::setPrintLevel("SILENT");
  sim::World w;
  w.motion = sim::gen_motion(t.u32());
  int nc = t.range(1, 2);
  w.cams = sim::gen_cams(t.u32(), nc);
  w.shared_map = nc > 1 && t.flip();
  w.async = nc > 1 && t.flip(0.3);
  w.t0 = t.pick(std::vector<double>{10, 1403636579.763555});
  w.dur = 3.0;
  w.imu_rate = 100;
  w.dt_off = t.flip(0.3) ? 0 : t.sym(0.02);
  w.num_pts = t.range(8, 20);
  w.seed = t.u32();
  w.spix = 1;
  w.sw = 1.7e-4;
  w.sa = 2e-3;
  w.p_drop = 0.03;
  Rng g(t.u32());
  w.bg = g.mat(3, 1, 0.02);
  w.ba = g.mat(3, 1, 0.1);
  w.make();
  StateOptions so;
  so.do_fej = true;
  so.integration_method = t.pick(std::vector<StateOptions::IntegrationMethod>{StateOptions::RK4, StateOptions::DISCRETE, StateOptions::ANALYTICAL});
  so.max_clone_size = t.range(5, 8);
  so.do_calib_camera_timeoffset = t.flip();
  so.do_calib_camera_pose = t.flip();
  so.do_calib_camera_intrinsics = t.flip();
  so.do_calib_imu_intrinsics = t.flip();
  so.imu_model = t.flip() ? StateOptions::RPNG : StateOptions::KALIBR;
  so.do_calib_imu_g_sensitivity = so.do_calib_imu_intrinsics && t.flip();
  so.max_slam_features = t.flip(0.3) ? 0 : 8;
  so.feat_rep_msckf = t.pick(reps());
  so.feat_rep_slam = t.pick(reps());
  auto p = sim::options_for(w, so);
  p.dt_slam_delay = 0.3;
  sim::square_noises(p);
  auto pa = sim::copy_options(p), pb = sim::copy_options(p);
  sim::VioManager A(pa), B(pb);
  double tinit = w.frames[1].t;
  auto x0 = sim::init_state(w, tinit);
  for (int i = 0; i < 3; i++) { // an imperfect start makes first estimates differ from later ones
    x0(8 + i) += g.sym(0.03);
    x0(11 + i) += g.sym(0.005);
  }
  A.initialize_with_gt(x0);
  B.initialize_with_gt(x0);
  auto sa = A.get_state(), sb = B.get_state();
  VectorXd dir = g.mat(4, 1, 1);
  static const std::vector<double> mags{0.1, 0.1, 1.0};
  double mag = t.pick(mags);
  VectorXd n0 = null_imu(sb->_imu->fej()) * dir * mag;
  {
    MatrixXd P = StateHelper::get_marginal_covariance(sb, {sb->_imu});
    P += n0 * n0.transpose();
    StateHelper::set_initial_covariance(sb, P, {sb->_imu});
  }
  int frames = 0, slam = 0;
  // an iteration more or less of a feature refinement, tipped by rounding, moves estimates by up to a few hundredths of a standard deviation
  double worst = 0, worstc = 0, moved = 0;
  double lastimu = 0;
  for (auto &e : sim::schedule(w, tinit)) {
    if (e.imu) {
      A.feed_measurement_imu(w.imu[e.i]);
      B.feed_measurement_imu(w.imu[e.i]);
      lastimu = w.imu[e.i].timestamp;
      continue;
    }
    auto &F = w.frames[e.i];
    if (F.t + sa->_calib_dt_CAMtoIMU->value()(0) + 0.005 > lastimu)
      continue;
    A.feed_measurement_simulation(F.t, F.cams, F.feats);
    B.feed_measurement_simulation(F.t, F.cams, F.feats);
    frames++;
    auto va = all_variables(sa), vb = all_variables(sb);
    REQUIRE(va.size() == vb.size() && sa->max_covariance_size() == sb->max_covariance_size() && sa->_features_SLAM.size() == sb->_features_SLAM.size(),
            "after frame " << frames << " the two estimators hold different variables");
    slam = std::max(slam, (int)sa->_features_SLAM.size());
    MatrixXd PA = StateHelper::get_full_covariance(sa), PB = StateHelper::get_full_covariance(sb);
    VectorXd sd = PA.diagonal().cwiseSqrt();
    for (size_t i = 0; i < va.size(); i++) {
      REQUIRE(va[i]->id() == vb[i]->id() && va[i]->size() == vb[i]->size(), "layouts differ");
      double m = sd.segment(va[i]->id(), va[i]->size()).minCoeff();
      worst = std::max(worst, value_dist(va[i], va[i]->value(), vb[i]->value()) / std::max(m, 1e-9));
    }
    VectorXd n = null_state(sa) * dir * mag;
    MatrixXd E = PB - PA - n * n.transpose();
    VectorXd sdb = PB.diagonal().cwiseSqrt();
    for (int i = 0; i < E.rows(); i++)
      for (int j = 0; j < E.cols(); j++)
        worstc = std::max(worstc, std::abs(E(i, j)) / (sdb(i) * sdb(j)));
    moved = std::max(moved, (sa->_imu->fej() - sa->_imu->value()).cwiseAbs().maxCoeff());
    REQUIRE(worst <= 0.2, "frame " << frames << ": initial uncertainty along an unobservable direction changed an estimate by " << worst << " of its standard deviation (msckf "
                                    << LR::as_string(so.feat_rep_msckf) << ", slam " << LR::as_string(so.feat_rep_slam) << ")");
    REQUIRE(worstc <= 1e-4 + 0.3 * worst, "frame " << frames << ": uncertainty along an unobservable direction was changed: relative " << worstc << " (msckf " << LR::as_string(so.feat_rep_msckf) << ", slam "
                                     << LR::as_string(so.feat_rep_slam) << ")");
  }
  c.metric("frac_tol:estimates", worst / 0.2);
  c.metric("frac_tol:covariance", worstc / (1e-4 + 0.3 * worst));
  c.metric("metric:fej distance", moved);
  if (slam)
    c.label("landmarks");
  c.label("msckf " + LR::as_string(so.feat_rep_msckf));
  if (slam)
    c.label("slam " + LR::as_string(so.feat_rep_slam));
  c.sample << frames << " frames, up to " << slam << " landmarks";
  c.nontrivial(moved > 1e-4 && frames > 15);
}
