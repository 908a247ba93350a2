// C01: filter state and covariance operations against a dense Kalman filter, over operation histories.
#include "statekit.h"
#include <boost/math/distributions/chi_squared.hpp>
using namespace sk;
using namespace ov_type;
using namespace ov_msckf;

namespace {
struct Var {
  TypePtr v;
  int off, n;
};
struct World {
  StatePtr s;
  std::vector<Var> vars; // layout of the reference filter
  MatrixXd P;
  VectorXd scale; // largest standard deviation each entry ever had
  std::map<Type *, VectorXd> val, fej;
  double rel = 5e-9;
  int N() const { return (int)P.rows(); }
  int offset(const TypePtr &v) const { // of a variable or of a part of one
    for (auto &x : vars) {
      if (x.v == v)
        return x.off;
      if (auto imu = std::dynamic_pointer_cast<IMU>(x.v)) {
        if (v == imu->pose() || v == imu->q())
          return x.off;
        if (v == imu->p())
          return x.off + 3;
        if (v == imu->v())
          return x.off + 6;
        if (v == imu->bg())
          return x.off + 9;
        if (v == imu->ba())
          return x.off + 12;
      }
      if (auto p = std::dynamic_pointer_cast<PoseJPL>(x.v)) {
        if (v == p->q())
          return x.off;
        if (v == p->p())
          return x.off + 3;
      }
    }
    throw std::logic_error("unknown variable");
  }
  void grow(const TypePtr &v, const MatrixXd &Pn, const VectorXd &inherited) {
    int old = N();
    vars.push_back({v, old, (int)Pn.rows() - old});
    P = Pn;
    VectorXd ns(P.rows());
    ns.head(old) = scale;
    for (int i = old; i < P.rows(); i++)
      ns(i) = std::max(std::sqrt(P(i, i)), inherited(i - old));
    scale = ns;
    note();
  }
  void note() {
    for (int i = 0; i < N(); i++)
      scale(i) = std::max(scale(i), std::sqrt(std::max(0.0, P(i, i))));
  }
  void snapshot() {
    for (auto &x : vars) {
      val[x.v.get()] = x.v->value();
      fej[x.v.get()] = x.v->fej();
    }
  }
};
/// compares the whole filter with the reference
void compare(pbt::Ctx &c, World &w, const std::string &op) {
  MatrixXd C = StateHelper::get_full_covariance(w.s);
  REQUIRE(C.rows() == w.N() && C.cols() == w.N(), "after " << op << ": covariance is " << C.rows() << "x" << C.cols() << ", expected " << w.N());
  REQUIRE(w.s->max_covariance_size() == w.N(), "after " << op << ": reported covariance size " << w.s->max_covariance_size());
  REQUIRE(C.allFinite(), "after " << op << ": covariance is not finite");
  // every variable has its own place
  std::vector<char> used(w.N(), 0);
  std::vector<int> id;
  for (auto &x : w.vars) {
    REQUIRE(x.v->size() == x.n, "after " << op << ": variable size changed");
    REQUIRE(x.v->id() >= 0 && x.v->id() + x.n <= w.N(), "after " << op << ": variable at " << x.v->id() << " of " << w.N());
    for (int k = 0; k < x.n; k++) {
      REQUIRE(!used[x.v->id() + k], "after " << op << ": two variables share entry " << x.v->id() + k);
      used[x.v->id() + k] = 1;
      id.push_back(x.v->id() + k);
    }
  }
  double worst = 0;
  std::string where;
  for (int i = 0; i < w.N(); i++)
    for (int j = 0; j < w.N(); j++) {
      double sc = w.scale(i) * w.scale(j);
      double e = std::abs(C(id[i], id[j]) - w.P(i, j)) / sc, a = std::abs(C(id[i], id[j]) - C(id[j], id[i])) / sc;
      if (!(e <= worst) || !(a <= 1e-13)) {
        worst = e;
        std::ostringstream os;
        os << "entry " << i << "," << j << " is " << C(id[i], id[j]) << " expected " << w.P(i, j) << " (mirrored " << C(id[j], id[i]) << ", scale " << sc << ")";
        where = os.str();
        REQUIRE(a <= 1e-10, "after " << op << ": covariance not symmetric at " << where);
      }
    }
  c.metric("frac_tol:covariance", worst / w.rel);
  REQUIRE(worst <= w.rel, "after " << op << ": covariance " << where);
  for (auto &x : w.vars) {
    double e = value_dist(x.v, x.v->value(), w.val.at(x.v.get()));
    double tol = 5e-8 * (1 + w.val.at(x.v.get()).norm());
    c.metric("frac_tol:mean", e / tol);
    REQUIRE(e <= tol, "after " << op << ": a variable of size " << x.n << " is " << str(x.v->value()) << " expected " << str(w.val.at(x.v.get())));
    REQUIRE(x.v->fej() == w.fej.at(x.v.get()), "after " << op << ": first estimate changed");
  }
}
/// reference measurement update on the whole state, Joseph form
VectorXd kalman(World &w, const MatrixXd &H, const VectorXd &r, const MatrixXd &R) {
  MatrixXd PH = w.P * H.transpose(), S = H * PH + R;
  MatrixXd K = S.ldlt().solve(PH.transpose()).transpose();
  MatrixXd A = MatrixXd::Identity(w.N(), w.N()) - K * H;
  w.P = A * w.P * A.transpose() + K * R * K.transpose();
  w.P = (0.5 * (w.P + w.P.transpose())).eval();
  return K * r;
}
void apply(World &w, const VectorXd &dx) {
  for (auto &x : w.vars)
    w.val[x.v.get()] = corrected(x.v, w.val[x.v.get()], dx.segment(x.off, x.n));
}
/// variables (or parts) in random order, distinct
std::vector<TypePtr> pick_order(pbt::Tape &t, World &w, int maxn) {
  std::vector<TypePtr> all;
  for (auto &x : w.vars) {
    auto imu = std::dynamic_pointer_cast<IMU>(x.v);
    auto pose = std::dynamic_pointer_cast<PoseJPL>(x.v);
    if (imu && t.flip()) {
      if (t.flip())
        all.push_back(imu->pose());
      else {
        all.push_back(imu->q());
        all.push_back(imu->p());
      }
      all.push_back(imu->v());
      all.push_back(imu->bg());
      all.push_back(imu->ba());
    } else if (pose && t.flip(0.3)) {
      all.push_back(pose->q());
      all.push_back(pose->p());
    } else
      all.push_back(x.v);
  }
  int n = t.range(1, std::min(maxn, (int)all.size()));
  std::vector<TypePtr> o;
  for (int i = 0; i < n; i++) {
    int k = t.range(0, (int)all.size() - 1);
    o.push_back(all[k]);
    all.erase(all.begin() + k);
  }
  return o;
}
MatrixXd expand(World &w, const std::vector<TypePtr> &order, const MatrixXd &H) {
  MatrixXd F = MatrixXd::Zero(H.rows(), w.N());
  int at = 0;
  for (auto &v : order) {
    F.block(0, w.offset(v), H.rows(), v->size()) += H.block(0, at, H.rows(), v->size());
    at += v->size();
  }
  return F;
}
int total(const std::vector<TypePtr> &o) {
  int n = 0;
  for (auto &v : o)
    n += v->size();
  return n;
}
VectorXd scales(World &w, const std::vector<TypePtr> &order) {
  VectorXd s(total(order));
  int at = 0;
  for (auto &v : order) {
    for (int k = 0; k < v->size(); k++)
      s(at + k) = std::max(std::sqrt(w.P(w.offset(v) + k, w.offset(v) + k)), 0.1 * w.scale(w.offset(v) + k)); // else earlier rounding is amplified
    at += v->size();
  }
  return s;
}
} // namespace

PBT_PART(histories, 600, 4000, 120000) {
  ov_core::Printer::setPrintLevel("SILENT");
  World w;
  StateOptions o = gen_options(t);
  w.s = std::make_shared<State>(o);
  Rng g(t.u32());
  for (int i = 0; i < o.num_cameras; i++) {
    if (t.flip())
      w.s->_cam_intrinsics_cameras.insert({i, std::make_shared<ov_core::CamRadtan>(640, 480)});
    else
      w.s->_cam_intrinsics_cameras.insert({i, std::make_shared<ov_core::CamEqui>(640, 480)});
  }
  w.P = StateHelper::get_full_covariance(w.s);
  w.scale = VectorXd::Zero(w.N());
  int at = 0;
  for (auto &v : fresh_variables(w.s)) {
    REQUIRE(v->id() == at, "fresh variable at " << v->id() << " expected " << at);
    w.vars.push_back({v, at, v->size()});
    at += v->size();
    VectorXd x = g.mat((int)v->value().rows(), 1, 3);
    if (starts_with_quat(v))
      x.head(4) = jplq(expR(g.mat(3, 1, 1.5)));
    set_both(v, x);
  }
  REQUIRE(at == w.N(), "fresh covariance has size " << w.N() << " for variables of total size " << at);
  REQUIRE((w.P - MatrixXd(w.P.diagonal().asDiagonal())).norm() == 0 && w.P.diagonal().minCoeff() > 0, "fresh covariance is not a positive diagonal");
  w.note();
  w.snapshot();
  w.s->_timestamp = t.flip() ? 1403636579.5 : 0.5;
  std::vector<std::shared_ptr<PoseJPL>> window;
  std::string trace;
  std::map<std::string, int> count;
  size_t next_id = 1;
  int nops = t.range(1, 40), updates = 0, structural = 0;
  for (int k = 0; k < nops; k++) {
    int kind = t.range(0, 10);
    std::string op;
    if (k > 0)
      w.rel *= 1.15;
    if (kind == 0) { // measurement update
      auto order = pick_order(t, w, 6);
      int n = total(order), m = t.range(1, t.flip(0.3) ? 40 : 8);
      VectorXd sc = scales(w, order);
      MatrixXd H = g.mat(m, n) * sc.cwiseInverse().asDiagonal();
      if (t.flip(0.2))
        for (int i = 0; i < n; i++)
          if (t.flip())
            H.col(i).setZero();
      MatrixXd Hf = expand(w, order, H);
      VectorXd sd = (Hf * w.P * Hf.transpose()).diagonal().cwiseSqrt() * t.logreal(0.05, 3) + VectorXd::Constant(m, 1e-6 + t.logreal(1e-2, 1));
      MatrixXd R = t.flip() ? MatrixXd(sd.cwiseAbs2().asDiagonal()) : g.cov(sd);
      VectorXd r = 0.3 * sd.cwiseProduct(g.gvec(m));
      StateHelper::EKFUpdate(w.s, order, H, r, R);
      VectorXd dx = kalman(w, Hf, r, R);
      apply(w, dx);
      updates++;
      op = "update";
      if (o.do_calib_camera_intrinsics)
        for (auto &x : w.s->_cam_intrinsics)
          REQUIRE(w.s->_cam_intrinsics_cameras.at(x.first)->get_value() == x.second->value(), "camera " << x.first << " does not use the updated intrinsics");
    } else if (kind == 1) { // propagation of consecutive variables from any others
      std::vector<TypePtr> nw, flat;
      std::vector<Var> byid = w.vars;
      std::sort(byid.begin(), byid.end(), [](const Var &a, const Var &b) { return a.v->id() < b.v->id(); });
      int a = t.flip(0.6) ? 0 : t.range(0, (int)byid.size() - 1), b = std::min((int)byid.size() - 1, a + t.range(0, 4));
      for (int i = a; i <= b; i++)
        nw.push_back(byid[i].v);
      std::vector<TypePtr> old = nw;
      if (t.flip(0.4)) {
        // also functions of other variables, in any order
        for (auto &v : pick_order(t, w, 3)) {
          bool overlap = false;
          for (auto &u : old)
            overlap = overlap || (w.offset(v) < w.offset(u) + u->size() && w.offset(u) < w.offset(v) + v->size());
          if (!overlap)
            old.insert(old.begin() + t.range(0, (int)old.size()), v);
        }
      }
      int n = total(nw), m = total(old);
      VectorXd sn = scales(w, nw), so = scales(w, old);
      MatrixXd F = sn.asDiagonal() * g.mat(n, m, t.real(0, 0.5)) * so.cwiseInverse().asDiagonal();
      MatrixXd full = MatrixXd::Identity(w.N(), w.N()), Q = t.flip(0.2) ? MatrixXd(MatrixXd::Zero(n, n)) : g.cov(sn * t.logreal(1e-2, 0.5));
      int r0 = 0;
      for (auto &v : nw) { // identity on the variable itself
        int c0 = 0;
        for (auto &u : old) {
          if (u == v)
            F.block(r0, c0, v->size(), v->size()) += MatrixXd::Identity(v->size(), v->size());
          c0 += u->size();
        }
        full.block(w.offset(v), 0, v->size(), w.N()).setZero();
        r0 += v->size();
      }
      MatrixXd Fe = expand(w, old, F);
      r0 = 0;
      MatrixXd Qf = MatrixXd::Zero(w.N(), w.N());
      for (auto &v : nw) {
        full.block(w.offset(v), 0, v->size(), w.N()) = Fe.block(r0, 0, v->size(), w.N());
        int c0 = 0;
        for (auto &u : nw) {
          Qf.block(w.offset(v), w.offset(u), v->size(), u->size()) = Q.block(r0, c0, v->size(), u->size());
          c0 += u->size();
        }
        r0 += v->size();
      }
      StateHelper::EKFPropagation(w.s, nw, old, F, Q);
      w.P = full * w.P * full.transpose() + Qf;
      op = "propagation";
    } else if (kind <= 3) { // sliding window clone
      if (!window.empty() && w.s->_clones_IMU.size() > 8)
        continue;
      w.s->_timestamp += t.pick(std::vector<double>{0.05, 1e-3, 1.0});
      Vector3d lw = g.mat(3, 1, 2);
      VectorXd pv = w.s->_imu->pose()->value(), pf = w.s->_imu->pose()->fej();
      StateHelper::augment_clone(w.s, lw);
      REQUIRE(w.s->_clones_IMU.count(w.s->_timestamp) == 1, "clone not registered at its time");
      auto cl = w.s->_clones_IMU.at(w.s->_timestamp);
      int N = w.N();
      MatrixXd J = MatrixXd::Zero(N + 6, N);
      J.topRows(N).setIdentity();
      J.block(N, w.offset(w.s->_imu->pose()), 6, 6).setIdentity();
      if (o.do_calib_camera_timeoffset) {
        VectorXd d(6);
        d << lw, VectorXd(w.s->_imu->vel());
        J.block(N, w.offset(w.s->_calib_dt_CAMtoIMU), 6, 1) += d;
      }
      w.grow(cl, J * w.P * J.transpose(), J.bottomRows(6).cwiseAbs() * w.scale);
      w.val[cl.get()] = pv;
      w.fej[cl.get()] = pf;
      window.push_back(cl);
      structural++;
      op = "window clone";
    } else if (kind == 4) { // clone any variable or part
      if (w.N() > 150)
        continue;
      auto v = pick_order(t, w, 1)[0];
      VectorXd x = v->value(), f = v->fej();
      auto cl = StateHelper::clone(w.s, v);
      REQUIRE(cl != v && cl->size() == v->size(), "clone has the wrong size");
      int N = w.N(), n = v->size();
      MatrixXd J = MatrixXd::Zero(N + n, N);
      J.topRows(N).setIdentity();
      J.block(N, w.offset(v), n, n).setIdentity();
      w.grow(cl, J * w.P * J.transpose(), J.bottomRows(n) * w.scale);
      w.val[cl.get()] = x;
      w.fej[cl.get()] = f;
      structural++;
      op = "clone";
    } else if (kind <= 6) { // new variable from measurements
      if (w.N() > 150)
        continue;
      int d = t.pick(std::vector<int>{3, 1, 2});
      TypePtr nv;
      size_t id = next_id++;
      if (d == 3 && t.flip(0.7)) {
        auto lm = std::make_shared<Landmark>(3);
        lm->_feat_representation = LandmarkRepresentation::Representation::GLOBAL_3D;
        lm->_featid = id;
        w.s->_features_SLAM.insert({id, lm});
        nv = lm;
      } else
        nv = std::make_shared<Vec>(d);
      VectorXd x0 = g.mat(d, 1, 5);
      set_both(nv, x0);
      bool inv = kind == 6 && t.flip(0.4);
      auto order = pick_order(t, w, 6);
      int n = total(order), m = inv ? d : d + t.range(0, t.flip(0.3) ? 30 : 6);
      VectorXd sc = scales(w, order);
      double us = t.logreal(0.05, 2);
      MatrixXd Hx = g.mat(m, n) * sc.cwiseInverse().asDiagonal() * us, Hf = g.mat(m, d);
      Hf.topRows(d) += 2.0 * MatrixXd::Identity(d, d);
      Hf *= t.logreal(0.1, 10);
      double sig = us * t.logreal(0.1, 3);
      MatrixXd R = sig * sig * MatrixXd::Identity(m, m), He = expand(w, order, Hx);
      // residual drawn from the model, sometimes an outlier
      VectorXd r = sig * g.gvec(m) + Hf * g.mat(d, 1, 0.2) + He * (MatrixXd(w.P.llt().matrixL()) * g.gvec(w.N()) * 0.2);
      if (t.flip(0.15))
        r += 20 * us * g.gvec(m);
      double mult = t.pick(std::vector<double>{1.0, 5.0, 0.3});
      int N = w.N();
      // reference: generalised least squares with no prior on the new variable
      MatrixXd Sx = He * w.P * He.transpose() + R;
      Eigen::LDLT<MatrixXd> Sl(Sx);
      MatrixXd SiHf = Sl.solve(Hf);
      MatrixXd Pff = (Hf.transpose() * SiHf).inverse();
      VectorXd fhat = Pff * (SiHf.transpose() * r);
      VectorXd innov = r - Hf * fhat;
      MatrixXd PHt = w.P * He.transpose();
      VectorXd xhat = PHt * Sl.solve(innov);
      MatrixXd G = PHt * SiHf; // N x d
      MatrixXd Pxx = w.P - PHt * Sl.solve(PHt.transpose()) + G * Pff * G.transpose();
      MatrixXd Pxf = -G * Pff;
      double chi2 = innov.dot(Sl.solve(innov));
      bool ok = true;
      if (inv) {
        VectorXd rr = r;
        StateHelper::initialize_invertible(w.s, nv, order, Hx, Hf, R, rr);
      } else {
        MatrixXd hr = Hx, hl = Hf, rm = R;
        VectorXd rr = r;
        ok = StateHelper::initialize(w.s, nv, order, hr, hl, rm, rr, mult);
        boost::math::chi_squared lo(std::max(1, m - d)), hi(m);
        double a = m > d ? mult * boost::math::quantile(lo, 0.95) : INFINITY, b = mult * boost::math::quantile(hi, 0.95);
        if (chi2 < 0.99 * a)
          REQUIRE(ok, "variable rejected with squared distance " << chi2 << " below the threshold of " << a << " (" << m << " rows, " << d << " unknowns)");
        if (m > d && chi2 > 1.01 * b)
          REQUIRE(!ok, "variable accepted with squared distance " << chi2 << " above the threshold of " << b);
      }
      if (ok) {
        // size of the new variable before the redundant rows are used
        Eigen::HouseholderQR<MatrixXd> qr(Hf);
        MatrixXd Q1 = MatrixXd(qr.householderQ()).leftCols(d), T = (Q1.transpose() * Hf).inverse();
        VectorXd mid = (T * (Q1.transpose() * Sx * Q1) * T.transpose()).diagonal().cwiseSqrt();
        MatrixXd Pn(N + d, N + d);
        Pn << Pxx, Pxf, Pxf.transpose(), Pff;
        w.val[nv.get()] = x0;
        w.fej[nv.get()] = x0;
        w.grow(nv, 0.5 * (Pn + Pn.transpose()), mid);
        VectorXd dx(N + d);
        dx << xhat, fhat;
        apply(w, dx);
        structural++;
        if (m > d)
          updates++;
        op = inv ? "invertible initialisation" : "initialisation";
        // rounding of the elimination, relative to the loosest direction of the landmark
        Eigen::JacobiSVD<MatrixXd> svd(Hf);
        double cond = svd.singularValues()(0) / svd.singularValues()(d - 1);
        w.rel = std::max(w.rel, 1e-13 * cond * cond);
        if (cond > 300)
          c.label("weak direction");
      } else {
        op = "rejected initialisation";
        if (auto lm = std::dynamic_pointer_cast<Landmark>(nv))
          w.s->_features_SLAM.erase(id);
        REQUIRE(nv->value() == x0, "rejected variable changed");
      }
    } else if (kind == 7) { // marginalise any but the IMU and the time offset
      std::vector<Var> can;
      for (auto &x : w.vars)
        if (x.v != w.s->_imu && x.v != w.s->_calib_dt_CAMtoIMU)
          can.push_back(x);
      if (can.empty())
        continue;
      Var m = t.pick(can);
      StateHelper::marginalize(w.s, m.v);
      REQUIRE(m.v->id() == -1, "marginalised variable still has a place (" << m.v->id() << ")");
      for (auto it = w.s->_clones_IMU.begin(); it != w.s->_clones_IMU.end(); ++it)
        if (it->second == m.v) {
          w.s->_clones_IMU.erase(it);
          break;
        }
      for (auto it = w.s->_features_SLAM.begin(); it != w.s->_features_SLAM.end(); ++it)
        if (it->second == m.v) {
          w.s->_features_SLAM.erase(it);
          break;
        }
      op = "marginalisation";
      structural++;
      std::vector<Var> keep;
      std::vector<int> idx;
      for (auto &x : w.vars)
        if (x.v != m.v) {
          keep.push_back({x.v, (int)idx.size(), x.n});
          for (int i = 0; i < x.n; i++)
            idx.push_back(x.off + i);
        }
      MatrixXd Pn(idx.size(), idx.size());
      VectorXd sn(idx.size());
      for (size_t i = 0; i < idx.size(); i++) {
        sn(i) = w.scale(idx[i]);
        for (size_t j = 0; j < idx.size(); j++)
          Pn(i, j) = w.P(idx[i], idx[j]);
      }
      w.P = Pn;
      w.scale = sn;
      w.vars = keep;
    } else if (kind == 8) { // window and landmark policies
      std::vector<TypePtr> gone;
      if (t.flip()) {
        bool full = (int)w.s->_clones_IMU.size() > o.max_clone_size;
        double oldest = w.s->_clones_IMU.empty() ? INFINITY : w.s->_clones_IMU.begin()->first;
        REQUIRE(w.s->margtimestep() == oldest, "next time to marginalise is not the oldest clone");
        if (full)
          gone.push_back(w.s->_clones_IMU.begin()->second);
        size_t before = w.s->_clones_IMU.size();
        StateHelper::marginalize_old_clone(w.s);
        REQUIRE(w.s->_clones_IMU.size() == before - (full ? 1 : 0), "window has " << w.s->_clones_IMU.size() << " clones, had " << before << ", limit " << o.max_clone_size);
        if (full)
          REQUIRE(!w.s->_clones_IMU.count(oldest), "oldest clone still in the window");
        op = "window marginalisation";
      } else {
        std::vector<size_t> ids;
        for (auto &f : w.s->_features_SLAM)
          ids.push_back(f.first);
        std::sort(ids.begin(), ids.end());
        for (size_t id : ids) {
          bool m = t.flip(0.4);
          w.s->_features_SLAM.at(id)->should_marg = m;
          if (m && (int)id > 4 * o.max_aruco_features)
            gone.push_back(w.s->_features_SLAM.at(id));
        }
        auto keep = w.s->_features_SLAM;
        StateHelper::marginalize_slam(w.s);
        for (auto &f : keep) {
          bool rm = std::find(gone.begin(), gone.end(), f.second) != gone.end();
          REQUIRE(w.s->_features_SLAM.count(f.first) == (rm ? 0u : 1u), "landmark " << f.first << (rm ? " was kept" : " was removed"));
        }
        op = "landmark marginalisation";
      }
      for (auto &gv : gone) {
        REQUIRE(gv->id() == -1, "marginalised variable still has a place");
        structural++;
        std::vector<Var> keep;
        std::vector<int> idx;
        for (auto &x : w.vars)
          if (x.v != gv) {
            keep.push_back({x.v, (int)idx.size(), x.n});
            for (int i = 0; i < x.n; i++)
              idx.push_back(x.off + i);
          }
        MatrixXd Pn(idx.size(), idx.size());
        VectorXd sn(idx.size());
        for (size_t i = 0; i < idx.size(); i++) {
          sn(i) = w.scale(idx[i]);
          for (size_t j = 0; j < idx.size(); j++)
            Pn(i, j) = w.P(idx[i], idx[j]);
        }
        w.P = Pn;
        w.scale = sn;
        w.vars = keep;
      }
    } else if (kind == 9 && k < 3 && structural == 0 && updates == 0) { // initial covariance of several variables
      std::vector<TypePtr> order;
      std::vector<Var> all = w.vars;
      int n = t.range(1, (int)all.size());
      for (int i = 0; i < n; i++) {
        int j = t.range(0, (int)all.size() - 1);
        order.push_back(all[j].v);
        all.erase(all.begin() + j);
      }
      int m = total(order);
      VectorXd sd(m);
      for (int i = 0; i < m; i++)
        sd(i) = t.logreal(1e-3, 1);
      MatrixXd C = g.cov(sd);
      // only valid while these variables are uncorrelated with the others
      bool indep = true;
      for (auto &v : order)
        for (auto &x : all)
          indep = indep && w.P.block(w.offset(v), x.off, v->size(), x.n).norm() == 0;
      if (!indep)
        continue;
      StateHelper::set_initial_covariance(w.s, C, order);
      int i0 = 0;
      for (auto &a : order) {
        int j0 = 0;
        for (auto &b : order) {
          w.P.block(w.offset(a), w.offset(b), a->size(), b->size()) = C.block(i0, j0, a->size(), b->size());
          j0 += b->size();
        }
        i0 += a->size();
      }
      op = "initial covariance";
    } else { // queries
      auto order = pick_order(t, w, 8);
      if (t.flip(0.2))
        order.push_back(order[0]);
      MatrixXd before = StateHelper::get_full_covariance(w.s);
      MatrixXd M = StateHelper::get_marginal_covariance(w.s, order), E = MatrixXd::Zero(total(order), w.N());
      int i0 = 0;
      for (auto &v : order) {
        E.block(i0, w.offset(v), v->size(), v->size()).setIdentity();
        i0 += v->size();
      }
      MatrixXd want = E * w.P * E.transpose();
      VectorXd sc = E * w.scale;
      REQUIRE(M.rows() == want.rows() && M.cols() == want.cols(), "marginal covariance has the wrong size");
      for (int i = 0; i < M.rows(); i++)
        for (int j = 0; j < M.cols(); j++)
          REQUIRE(std::abs(M(i, j) - want(i, j)) <= w.rel * sc(i) * sc(j), "marginal covariance entry " << i << "," << j << " is " << M(i, j) << " expected " << want(i, j));
      REQUIRE(StateHelper::get_full_covariance(w.s) == before, "a query changed the covariance");
      op = "query";
    }
    w.note();
    count[op]++;
    compare(c, w, op);
  }
  // positive semi-definite, scaled by the standard deviations
  MatrixXd C = StateHelper::get_full_covariance(w.s);
  VectorXd d = C.diagonal().cwiseMax(1e-300).cwiseSqrt().cwiseInverse();
  MatrixXd S = d.asDiagonal() * C * d.asDiagonal();
  double lo = Eigen::SelfAdjointEigenSolver<MatrixXd>(0.5 * (S + S.transpose())).eigenvalues()(0);
  c.metric("most negative scaled eigenvalue", -lo);
  double ratio = 1;
  for (int i = 0; i < w.N(); i++)
    ratio = std::max(ratio, w.scale(i) * w.scale(i) / C(i, i));
  REQUIRE(lo > -5e-9 * ratio * std::max(1.0, w.rel / 5e-9), "scaled covariance has eigenvalue " << lo);
  for (auto &x : count)
    c.label(x.first);
  c.nontrivial(updates > 0 && structural > 0);
  if (c.want_sample) {
    c.sample << w.N() << " entries, " << w.vars.size() << " variables after";
    for (auto &x : count)
      c.sample << " " << x.second << "x " << x.first;
  }
}
