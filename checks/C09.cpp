// C09: residuals and Jacobians of a feature's measurements against a double-precision measurement model and its numerical derivatives.
#include "featkit.h"
#include "update/UpdaterHelper.h"
using namespace fk;
using namespace ov_msckf;

PBT_PART(feature, 96, 40000, 800000) {
  ov_core::Printer::setPrintLevel("SILENT");
  Rig r = gen_rig(t, 1, 6);
  auto &s = r.s;
  auto &g = r.g;
  Vector3d pG = gen_point(r);
  Rep rep = t.pick(reps());
  UpdaterHelper::UpdaterHelperFeature f;
  f.featid = t.u32() % 100000;
  f.feat_representation = rep;
  // which camera saw it when
  std::vector<std::pair<int, double>> meas;
  double keep = t.pick(std::vector<double>{1, 0.6, 0.3});
  std::vector<int> cams;
  for (int c2 = 0; c2 < r.o.num_cameras; c2++)
    cams.push_back(c2);
  if (t.flip())
    std::reverse(cams.begin(), cams.end());
  for (int k : cams) {
    for (double tm : r.times) {
      if (g.sym() > 2 * keep - 1)
        continue;
      if (in_camera(r, k, tm, pG)(2) < 0.8)
        continue;
      Vector3d P = in_camera(r, k, tm, pG);
      double rad = P.head(2).norm() / P(2);
      if (rad > 1.3)
        continue;
      Vector2d uv = predict(r, k, tm, pG) + Vector2d(g.mat(2, 1, t.flip(0.2) ? 40 : 2));
      Eigen::VectorXf u = uv.cast<float>();
      f.uvs[k].push_back(u);
      f.uvs_norm[k].push_back(Eigen::VectorXf(Vector2d(P.head(2) / P(2)).cast<float>()));
      f.timestamps[k].push_back(tm);
      meas.push_back({k, tm});
    }
  }
  if (meas.empty())
    throw pbt::Discard("no measurement in view");
  int acam = -1;
  double atime = -1;
  Vector3d pA = Vector3d::Zero();
  if (anchored(rep)) {
    if (t.flip(0.7)) {
      auto &m = meas[t.range(0, (int)meas.size() - 1)];
      acam = m.first;
      atime = m.second;
    } else { // anchored in a frame without a measurement here, like a landmark seen earlier
      acam = t.range(0, r.o.num_cameras - 1);
      atime = r.times[t.range(0, (int)r.times.size() - 1)];
      c.label("anchor without measurement perhaps");
    }
    pA = in_camera(r, acam, atime, pG);
    if (pA(2) < 0.8)
      throw pbt::Discard("behind the anchor");
    f.anchor_cam_id = acam;
    f.anchor_clone_timestamp = atime;
    f.p_FinA = pA;
    f.p_FinA_fej = pA;
    if (t.flip()) { // the global copy need not be filled for anchored features
      f.p_FinG.setConstant(NAN);
      f.p_FinG_fej.setConstant(NAN);
    } else {
      f.p_FinG = pG;
      f.p_FinG_fej = pG;
    }
  } else {
    f.p_FinG = pG;
    f.p_FinG_fej = pG;
  }
  Vector3d base = anchored(rep) ? pA : pG;
  bool sph = rep == Rep::GLOBAL_FULL_INVERSE_DEPTH || rep == Rep::ANCHORED_FULL_INVERSE_DEPTH;
  double sphi = sph ? base.head(2).norm() / base.norm() : 1;
  if (sphi < 1e-3)
    throw pbt::Discard("singular spherical parameters");
  VectorXd lam = to_params(rep, base);
  Vector3d bearing = base / base(2);
  // the model, as a function of corrections to all variables
  std::vector<TypePtr> vars;
  auto model = [&](const TypePtr &v, const VectorXd &d, const VectorXd &dl, std::vector<Vector2d> &out, Vector3d *pos = nullptr) {
    auto val = [&](const TypePtr &x) { return x == v ? corrected(x, x->value(), d) : VectorXd(x->value()); };
    Vector3d P = from_params(rep, lam + dl, bearing);
    if (anchored(rep))
      P = to_global(pose_of(val(s->_clones_IMU.at(atime))), pose_of(val(s->_calib_IMUtoCAM.at(acam))), P);
    if (pos)
      *pos = P;
    out.clear();
    for (auto &pr : f.timestamps)
      for (double tm : pr.second) {
        int k = (int)pr.first;
        Vector3d X = to_camera(pose_of(val(s->_clones_IMU.at(tm))), pose_of(val(s->_calib_IMUtoCAM.at(k))), P);
        out.push_back(camgen::project(r.equi[k], val(s->_cam_intrinsics.at(k)), Vector2d(X.head(2) / X(2))));
      }
  };
  auto flat = [&](const std::vector<Vector2d> &o) {
    VectorXd x(2 * o.size());
    for (size_t i = 0; i < o.size(); i++)
      x.segment(2 * i, 2) = o[i];
    return x;
  };
  MatrixXd Hf, Hx;
  VectorXd res;
  std::vector<TypePtr> order;
  MatrixXd P0 = StateHelper::get_full_covariance(s);
  UpdaterHelper::get_feature_jacobian_full(s, f, Hf, Hx, res, order);
  int nm = 2 * (int)meas.size(), nl = rep_dim(rep);
  REQUIRE(res.rows() == nm && Hf.rows() == nm && Hf.cols() == nl && Hx.rows() == nm, "sizes " << res.rows() << " " << Hf.rows() << "x" << Hf.cols() << " " << Hx.rows() << "x" << Hx.cols());
  // involved variables
  std::set<TypePtr> want, seen;
  for (auto &m : meas) {
    want.insert(s->_clones_IMU.at(m.second));
    if (r.o.do_calib_camera_pose)
      want.insert(s->_calib_IMUtoCAM.at(m.first));
    if (r.o.do_calib_camera_intrinsics)
      want.insert(s->_cam_intrinsics.at(m.first));
  }
  if (anchored(rep)) {
    want.insert(s->_clones_IMU.at(atime));
    if (r.o.do_calib_camera_pose)
      want.insert(s->_calib_IMUtoCAM.at(acam));
  }
  int cols = 0;
  for (auto &v : order) {
    REQUIRE(seen.insert(v).second, "a variable appears twice");
    REQUIRE(want.count(v), "a variable which is not involved or not calibrated appears (index " << v->id() << ", size " << v->size() << ")");
    cols += v->size();
  }
  REQUIRE(seen.size() == want.size(), "only " << seen.size() << " of " << want.size() << " involved variables appear");
  REQUIRE(Hx.cols() == cols, Hx.cols() << " columns for variables of total size " << cols);
  // residual
  std::vector<Vector2d> pred;
  model(nullptr, VectorXd(), VectorXd::Zero(nl), pred);
  VectorXd z(nm);
  {
    int i = 0;
    for (auto &pr : f.timestamps)
      for (size_t j = 0; j < pr.second.size(); j++, i += 2)
        z.segment(i, 2) = f.uvs.at(pr.first)[j].cast<double>();
  }
  VectorXd want_res = z - flat(pred);
  double er = (res - want_res).cwiseAbs().maxCoeff();
  c.metric("frac_tol:residual", er / 1e-3);
  REQUIRE(er <= 1e-3, "residual off by " << er << " pixels"); // pixel values are single precision
  // Jacobian with respect to the feature
  auto judge = [&](const MatrixXd &J, const MatrixXd &N, const char *what, double tol) {
    REQUIRE(J.allFinite(), what << ": not finite");
    double sc = std::max(1.0, N.cwiseAbs().maxCoeff());
    double e = (J - N).cwiseAbs().maxCoeff() / sc;
    c.metric(std::string("frac_tol:") + what, e / tol);
    REQUIRE(e <= tol, what << ": Jacobian off by " << e << " relative (" << LR::as_string(rep) << ")");
  };
  std::vector<Vector2d> tmp;
  // parameters as inverse depths may be small: relative steps
  VectorXd step = VectorXd::Constant(nl, 1e-3);
  for (int i = 0; i < nl; i++)
    if (i == 2 && rep != Rep::GLOBAL_3D && rep != Rep::ANCHORED_3D)
      step(i) = 1e-3 * lam(2);
  if (nl == 1)
    step(0) = 1e-3 * lam(0);
  if (sph)
    step *= std::min(1.0, 3 / base.norm());
  MatrixXd N = numdiff(
      [&](const VectorXd &d) {
        model(nullptr, VectorXd(), VectorXd(step.asDiagonal() * d), tmp);
        return flat(tmp);
      },
      nl, nm, 1.0);
  judge(Hf * step.asDiagonal() * 1000, N * 1000, "feature", 1e-7 / sphi);
  int col = 0;
  for (auto &v : order) {
    int n = v->size();
    bool intr = false;
    for (auto &ci : s->_cam_intrinsics)
      intr = intr || ci.second == v;
    double h = intr ? 1e-3 : 1e-3;
    MatrixXd Nv = numdiff(
        [&](const VectorXd &d) {
          model(v, d, VectorXd::Zero(nl), tmp);
          return flat(tmp);
        },
        n, nm, h);
    judge(Hx.middleCols(col, n), Nv, intr ? "intrinsics" : s->_clones_IMU.size() && std::any_of(s->_clones_IMU.begin(), s->_clones_IMU.end(), [&](const std::pair<const double, std::shared_ptr<ov_type::PoseJPL>> &q) { return q.second == v; }) ? "clone" : "extrinsics", 1e-7);
    col += n;
  }
  // the representation alone
  MatrixXd Lf;
  std::vector<MatrixXd> Lx;
  std::vector<TypePtr> Lo;
  UpdaterHelper::get_feature_jacobian_representation(s, f, Lf, Lx, Lo);
  REQUIRE(Lf.rows() == 3 && Lf.cols() == nl && Lx.size() == Lo.size(), "sizes of the representation's Jacobian");
  Vector3d pos;
  MatrixXd NL = numdiff(
      [&](const VectorXd &d) {
        model(nullptr, VectorXd(), VectorXd(step.asDiagonal() * d), tmp, &pos);
        return VectorXd(pos);
      },
      nl, 3, 1.0);
  judge(Lf * step.asDiagonal() * 1000, NL * 1000, "representation", 1e-7 * (1 + pG.norm()) / sphi);
  std::set<TypePtr> lw;
  if (anchored(rep)) {
    lw.insert(s->_clones_IMU.at(atime));
    if (r.o.do_calib_camera_pose)
      lw.insert(s->_calib_IMUtoCAM.at(acam));
  }
  REQUIRE(Lo.size() == lw.size(), "representation involves " << Lo.size() << " variables");
  for (size_t i = 0; i < Lo.size(); i++) {
    REQUIRE(lw.count(Lo[i]), "representation involves another variable");
    MatrixXd Nv = numdiff(
        [&](const VectorXd &d) {
          model(Lo[i], d, VectorXd::Zero(nl), tmp, &pos);
          return VectorXd(pos);
        },
        Lo[i]->size(), 3, 1e-3);
    judge(Lx[i], Nv, "representation state", 1e-7 * (1 + pG.norm()));
  }
  REQUIRE(StateHelper::get_full_covariance(s) == P0, "the covariance changed");
  c.label(LR::as_string(rep));
  c.label("cameras " + std::to_string(r.o.num_cameras));
  if (r.o.do_fej)
    c.label("fej");
  c.sample << LR::as_string(rep) << ", " << meas.size() << " measurements, " << order.size() << " variables";
  c.nontrivial(meas.size() >= 2);
}

// With online intrinsics and extrinsics at their values but clones away from their first estimates: the residual uses the current estimates, the Jacobians the first ones.
PBT_PART(firstestimate, 96, 15000, 300000) {
  ov_core::Printer::setPrintLevel("SILENT");
  Rig r = gen_rig(t, 2, 5, 1.0, true);
  auto &s = r.s;
  auto &g = r.g;
  Vector3d pG = gen_point(r, 4, 10);
  Vector3d pF = pG + Vector3d(g.mat(3, 1, 0.03));
  UpdaterHelper::UpdaterHelperFeature f;
  f.featid = 1;
  f.feat_representation = Rep::GLOBAL_3D;
  f.p_FinG = pG;
  f.p_FinG_fej = pF;
  int nm = 0;
  for (int k = 0; k < r.o.num_cameras; k++)
    for (double tm : r.times) {
      Vector3d P = in_camera(r, k, tm, pG);
      if (P(2) < 1 || P.head(2).norm() / P(2) > 1.0)
        continue;
      Eigen::VectorXf u = Vector2d(predict(r, k, tm, pG) + Vector2d(g.mat(2, 1, 2))).cast<float>();
      f.uvs[k].push_back(u);
      f.uvs_norm[k].push_back(u);
      f.timestamps[k].push_back(tm);
      nm += 2;
    }
  if (!nm)
    throw pbt::Discard("no measurement in view");
  MatrixXd Hf, Hx;
  VectorXd res;
  std::vector<TypePtr> order;
  UpdaterHelper::get_feature_jacobian_full(s, f, Hf, Hx, res, order);
  // residual at the current estimate
  int i = 0;
  double er = 0, worst = 0;
  bool fej = r.o.do_fej;
  for (auto &pr : f.timestamps)
    for (size_t j = 0; j < pr.second.size(); j++, i += 2) {
      int k = (int)pr.first;
      double tm = pr.second[j];
      er = std::max(er, (res.segment(i, 2) - (f.uvs.at(k)[j].cast<double>() - predict(r, k, tm, pG))).cwiseAbs().maxCoeff());
      // derivative of the pixel along the geometry at the linearisation point; the lens may be linearised at either estimate
      auto &cl = s->_clones_IMU.at(tm);
      PoseV C = pose_of(fej ? cl->fej() : cl->value()), E = pose_of(s->_calib_IMUtoCAM.at(k)->value());
      Vector3d X = to_camera(C, E, fej ? pF : pG), Xv = in_camera(r, k, tm, pG);
      Eigen::Matrix<double, 2, 3> D;
      D << 1 / X(2), 0, -X(0) / (X(2) * X(2)), 0, 1 / X(2), -X(1) / (X(2) * X(2));
      auto lens = [&](const Vector3d &Y) {
        Vector2d n = Y.head(2) / Y(2);
        return MatrixXd(numdiff([&](const VectorXd &d) { return VectorXd(camgen::project(r.equi[k], s->_cam_intrinsics.at(k)->value(), Vector2d(n + d))); }, 2, 2, 1e-4));
      };
      MatrixXd La = lens(X), Lb = lens(Xv), want = La * D * E.R * C.R, alt = Lb * D * E.R * C.R;
      double sc = std::max(1.0, want.cwiseAbs().maxCoeff());
      double e = std::min((Hf.middleRows(i, 2) - want).cwiseAbs().maxCoeff(), (Hf.middleRows(i, 2) - alt).cwiseAbs().maxCoeff()) / sc;
      // the clone's block follows from the same linearisation point
      int col = 0;
      for (auto &v : order) {
        if (v == cl) {
          MatrixXd Hc(3, 6);
          Hc << E.R * skew(Vector3d(C.R * ((fej ? pF : pG) - C.p))), -E.R * C.R;
          MatrixXd wa = La * D * Hc, wb = Lb * D * Hc;
          e = std::max(e, std::min((Hx.block(i, col, 2, 6) - wa).cwiseAbs().maxCoeff(), (Hx.block(i, col, 2, 6) - wb).cwiseAbs().maxCoeff()) / std::max(1.0, wa.cwiseAbs().maxCoeff()));
        }
        col += v->size();
      }
      worst = std::max(worst, e);
    }
  c.metric("frac_tol:residual", er / 1e-3);
  c.metric("frac_tol:Jacobian", worst / 1e-6);
  REQUIRE(er <= 1e-3, "residual is not at the current estimate: off by " << er << " pixels");
  REQUIRE(worst <= 1e-6, (fej ? "first-estimate" : "current-estimate") << " Jacobian off by " << worst << " relative");
  c.label(fej ? "first estimates" : "current estimates");
  c.sample << nm / 2 << " measurements, fej " << fej;
  c.nontrivial(fej);
}
