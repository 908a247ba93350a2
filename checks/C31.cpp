// C31: factors of the non-linear initialisation and its rotation manifold.
#include "camgen.h"
#include "ceres/Factor_GenericPrior.h"
#include "ceres/Factor_ImageReprojCalib.h"
#include "ceres/Factor_ImuCPIv1.h"
#include "ceres/State_JPLQuatLocal.h"
#include "cpi/CpiV1.h"
using namespace vm;
using namespace ov_init;

typedef std::vector<VectorXd> Params;
struct Val {
  VectorXd r;
  std::vector<MatrixXd> J;
};
/// evaluates with every unrequested Jacobian null and garbage in the requested buffers
static Val eval(const ceres::CostFunction &f, const Params &p, const std::vector<bool> &want, bool none = false) {
  typedef Eigen::Matrix<double, -1, -1, Eigen::RowMajor> RM;
  Val v;
  int n = f.num_residuals();
  v.r = VectorXd::Constant(n, 1e300);
  std::vector<RM> buf;
  std::vector<double *> ptr;
  std::vector<const double *> in;
  for (size_t i = 0; i < p.size(); i++) {
    buf.push_back(RM::Constant(n, p[i].size(), 1e300));
    in.push_back(p[i].data());
  }
  for (size_t i = 0; i < p.size(); i++)
    ptr.push_back(want[i] ? buf[i].data() : nullptr);
  bool ok = f.Evaluate(in.data(), v.r.data(), none ? nullptr : ptr.data());
  REQUIRE(ok, "factor evaluation reported failure");
  for (auto &b : buf)
    v.J.push_back(b);
  return v;
}
static VectorXd plus(const VectorXd &x, const VectorXd &d) {
  if (x.size() != 4)
    return x + d;
  State_JPLQuatLocal m;
  VectorXd o(4);
  m.Plus(x.data(), d.data(), o.data());
  return o;
}
/// Jacobian reported to the optimiser along the manifold against differences of the residual; scale(i) are the sizes of parameter i's step
static void check_jacobians(pbt::Ctx &c, pbt::Tape &t, const ceres::CostFunction &f, const Params &p, double h, std::function<double(int, const MatrixXd &)> tol,
                            const std::vector<std::string> &names,
                            std::function<VectorXd(const Params &)> model = nullptr) {
  auto sizes = f.parameter_block_sizes();
  REQUIRE(sizes.size() == p.size(), "factor has " << sizes.size() << " parameter blocks, expected " << p.size());
  for (size_t i = 0; i < p.size(); i++)
    REQUIRE(sizes[i] == p[i].size(), "parameter block " << i << " has size " << sizes[i]);
  std::vector<bool> all(p.size(), true), some(p.size()), no(p.size(), false);
  for (size_t i = 0; i < p.size(); i++)
    some[i] = t.flip();
  Val v = eval(f, p, all), s = eval(f, p, some), n = eval(f, p, no, true);
  REQUIRE(v.r == n.r && v.r == s.r, "residual depends on which Jacobians are requested");
  State_JPLQuatLocal m;
  for (size_t i = 0; i < p.size(); i++) {
    if (some[i])
      REQUIRE(s.J[i] == v.J[i], "Jacobian " << names[i] << " depends on which others are requested");
    MatrixXd L = v.J[i];
    int dim = (int)p[i].size();
    if (p[i].size() == 4) {
      Eigen::Matrix<double, 4, 3, Eigen::RowMajor> D;
      m.PlusJacobian(p[i].data(), D.data());
      L = v.J[i] * D;
      dim = 3;
    }
    auto fn = [&](const VectorXd &d) {
      Params q = p;
      q[i] = plus(p[i], d);
      return model ? model(q) : eval(f, q, no, true).r;
    };
    MatrixXd N = numdiff(fn, dim, f.num_residuals(), h);
    pbt::near_mat(c, L, N, tol((int)i, N), "Jacobian of " + names[i]);
  }
}
static double maxabs(const MatrixXd &m) { return m.size() ? m.cwiseAbs().maxCoeff() : 0.0; }

PBT_PART(manifold, 32, 400000, 6000000) {
  State_JPLQuatLocal m;
  REQUIRE(m.AmbientSize() == 4 && m.TangentSize() == 3, "sizes " << m.AmbientSize() << " " << m.TangentSize());
  Vector4d q = jplq(gen_rot(t));
  if (t.flip())
    q = -q;
  Vector3d d = gen_rotvec(t, &c);
  if (t.flip(0.05))
    d.setZero();
  double th = d.norm();
  Vector4d o;
  m.Plus(q.data(), d.data(), o.data());
  pbt::near(c, o.norm(), 1.0, 1e-13, "norm after plus");
  // retraction: first-order equal to the left-multiplied JPL error, identity at zero
  Matrix3d R = jplR(q), Ro = jplR(o);
  double e = rdist(Ro, expR(-d) * R);
  REQUIRE(e <= 1e-11 + 0.2 * th * th * th, "plus of " << th << " rad differs by " << e << " from the left-multiplied error");
  // inverse
  if (th < M_PI - 1e-6) {
    Vector3d b;
    m.Minus(o.data(), q.data(), b.data());
    pbt::near_mat(c, b, d, th < 1e-7 ? 2.1e-8 : 1e-11 + 1e-14 / (M_PI - th), "minus after plus");
    Vector4d neg = -o;
    Vector4d back;
    m.Plus(q.data(), b.data(), back.data());
    double rt = rdist(jplR(back), Ro);
    REQUIRE(rt < 3e-8, "plus after minus differs by " << rt);
    (void)neg;
  }
  Eigen::Matrix<double, 4, 3, Eigen::RowMajor> D;
  Eigen::Matrix<double, 3, 4, Eigen::RowMajor> M;
  m.PlusJacobian(q.data(), D.data());
  m.MinusJacobian(q.data(), M.data());
  Matrix3d MD = M * D;
  pbt::near_mat(c, MD, Matrix3d::Identity(), 1e-9, "minus Jacobian times plus Jacobian");
  c.nontrivial(th > 0);
  if (c.want_sample)
    c.sample << "plus by " << th << " rad";
}

PBT_PART(prior, 700, 40000, 600000) {
  int nv = t.range(1, 6);
  std::vector<std::string> types, names;
  std::vector<int> err, off;
  int gs = 0, es = 0;
  Params x, xl;
  std::string kinds;
  double spread = t.flip(0.2) ? 0.0 : t.logreal(1e-6, 1.0);
  for (int i = 0; i < nv; i++) {
    static const std::vector<std::string> all{"vec3", "quat", "quat_yaw", "vec1", "vec8"};
    std::string ty = t.pick(all);
    types.push_back(ty);
    names.push_back(ty);
    kinds += ty + " ";
    int d = ty == "vec1" || ty == "quat_yaw" ? 1 : ty == "vec8" ? 8 : 3;
    off.push_back(es);
    err.push_back(d);
    es += d;
    if (ty == "quat" || ty == "quat_yaw") {
      Matrix3d R = gen_rot(t);
      double a = spread * t.real(0, 2.6);
      if (t.flip(0.15))
        a = t.logreal(1e-12, 1e-5) * (spread > 0);
      Matrix3d Rx = expR(a * gen_dir(t)) * R;
      Vector4d ql = jplq(R), q = jplq(Rx);
      xl.push_back(t.flip() ? VectorXd(-ql) : VectorXd(ql));
      x.push_back(t.flip() ? VectorXd(-q) : VectorXd(q));
      gs += 4;
    } else {
      VectorXd v = gen_mat(t, d, 1, ty == "vec8" ? 500.0 : 10.0);
      xl.push_back(v);
      x.push_back(v + gen_mat(t, d, 1, 2 * spread));
      gs += d;
    }
  }
  MatrixXd xlin(gs, 1);
  for (int i = 0, g = 0; i < nv; g += xl[i].size(), i++)
    xlin.block(g, 0, xl[i].size(), 1) = xl[i];
  MatrixXd I;
  bool diag = t.flip(0.2);
  if (diag) {
    VectorXd dd(es);
    for (int i = 0; i < es; i++)
      dd(i) = t.logreal(1e-2, 1e10);
    I = dd.asDiagonal();
  } else
    I = gen_spd(t, es, 1e-1, 1e3);
  VectorXd scale = I.diagonal().cwiseSqrt();
  MatrixXd g = MatrixXd::Zero(es, 1);
  bool grad = t.flip(0.7);
  if (grad)
    for (int i = 0; i < es; i++)
      g(i, 0) = scale(i) * t.sym(3);
  Factor_GenericPrior f(xlin, types, I, g);
  REQUIRE(f.num_residuals() == es, "prior has " << f.num_residuals() << " residuals for " << es << " error dimensions");
  // error of each variable
  VectorXd e(es);
  double ang = 0;
  for (int i = 0; i < nv; i++) {
    if (x[i].size() == 4 && types[i][0] == 'q') {
      Matrix3d R = jplR(x[i]), Rl = jplR(xl[i]);
      Vector3d th = logR(Rl.transpose() * R); // global-frame rotation from linearisation point to value
      // JPL: perturbing R to (I - [d]) R; the error grows with +d' (rotated into the global frame) with a minus sign
      ang = std::max(ang, th.norm());
      if (types[i] == "quat")
        e.segment(off[i], 3) = th;
      else
        e(off[i]) = th(2);
    } else
      e.segment(off[i], err[i]) = x[i] - xl[i];
  }
  if (ang > 3.0)
    throw pbt::Discard("near half turn");
  std::vector<bool> all(nv, true);
  Val v = eval(f, x, all);
  Val z = eval(f, xl, all);
  // gradient at the linearisation point, and quadratic cost
  MatrixXd J0 = MatrixXd::Zero(es, es);
  VectorXd gl = VectorXd::Zero(es);
  for (int i = 0; i < nv; i++) {
    if (types[i][0] == 'v') {
      gl.segment(off[i], err[i]) = z.J[i].transpose() * z.r;
      for (int k = 0; k < err[i]; k++)
        pbt::near(c, gl(off[i] + k) / scale(off[i] + k), g(off[i] + k, 0) / scale(off[i] + k), 1e-7, "gradient at the linearisation point");
    }
  }
  // |r|^2 = e' I e + 2 e' g + const, sign of the rotation errors fixed by the Jacobian convention: R' R_lin, i.e. minus its logarithm
  double c0 = z.r.squaredNorm();
  double want = (e.transpose() * I * e)(0, 0) + 2 * e.dot(g.col(0)) + c0;
  double size = (e.transpose() * I * e)(0, 0) + 2 * std::abs(e.dot(g.col(0))) + c0 + 1e-12;
  if (size > 0)
    pbt::near(c, v.r.squaredNorm(), want, 1e-7 * size + 1e-8 * std::sqrt(size), "cost against its quadratic definition");
  if (!grad)
    REQUIRE(maxabs(z.r) <= 1e-13 * maxabs(scale), "residual at the linearisation point is " << maxabs(z.r));
  double ms = maxabs(scale);
  check_jacobians(c, t, f, x, 1e-4, [&](int, const MatrixXd &N) { return 1e-6 * maxabs(N) + ms * 2e-8 * (1 + maxabs(e)) / std::pow(3.15 - ang, 2); }, names);
  c.nontrivial(nv > 1 && maxabs(e) > 0);
  if (c.want_sample)
    c.sample << "prior on " << kinds << ", largest error " << maxabs(e) << (grad ? ", with gradient" : "") << (diag ? ", diagonal" : ", full") << " information";
}

static VectorXd vec3(const Vector3d &v) { return v; }
PBT_PART(reprojection, 120, 150000, 2500000) {
  bool equi = false;
  int w = 0, h = 0;
  VectorXd k = camgen::gen_calib(t, c, equi, w, h);
  Vector2d n = camgen::gen_ray(t, c, equi, k);
  double depth = t.logreal(0.3, 60);
  Matrix3d R1 = gen_rot(t), R2 = gen_rot(t);
  Vector3d p1 = gen_vec(t, 20), p2 = gen_vec(t, 0.5);
  Vector3d pc(n(0) * depth, n(1) * depth, depth);
  Vector3d pf = R1.transpose() * (R2.transpose() * (pc - p2)) + p1;
  Vector4d q1 = jplq(R1), q2 = jplq(R2);
  if (t.flip())
    q1 = -q1;
  if (t.flip())
    q2 = -q2;
  Vector2d noise = t.flip(0.3) ? Vector2d(0, 0) : Vector2d(t.sym(30), t.sym(30));
  double sig = t.logreal(0.05, 10), gate = t.flip(0.3) ? t.pick(std::vector<double>{0.0, 0.5, 1.0}) : 1.0;
  Vector3d pcr = R2 * (R1 * (pf - p1)) + p2;
  Vector2d nr(pcr(0) / pcr(2), pcr(1) / pcr(2));
  Vector2d uv = camgen::project(equi, k, nr) + noise;
  Factor_ImageReprojCalib f(uv, sig, equi);
  f.gate = gate;
  Params x{q1, vec3(p1), vec3(pf), q2, vec3(p2), k};
  Val v = eval(f, x, std::vector<bool>(6, true));
  Vector2d want = -noise * gate / sig;
  // the projection is evaluated in single precision: 1e-4 pixels at image size
  pbt::near_mat(c, v.r, VectorXd(want), gate / sig * (8e-7 * ((uv - noise).norm() + k(0)) + 1e-9 * k(0) * (1 + p1.norm() / depth)) + 1e-300, "residual");
  double sh = 1e-4 * std::min(1.0, depth);
  auto model = [&](const Params &q) {
    Vector3d z = jplR(q[3]) * (jplR(q[0]) * (Vector3d(q[2]) - Vector3d(q[1]))) + Vector3d(q[4]);
    return VectorXd(gate / sig * (camgen::project(equi, q[5], Vector2d(z(0) / z(2), z(1) / z(2))) - uv));
  };
  double F = k(0) * (1 + (p1.norm() + pf.norm()) / depth);
  check_jacobians(c, t, f, x, sh, [&](int, const MatrixXd &N) { return gate / sig * 1e-14 * F / sh * 20 + 1e-7 * maxabs(N) + 1e-300; },
                  {"global-to-IMU rotation", "IMU position", "point", "IMU-to-camera rotation", "camera translation", "intrinsics"}, model);
  c.nontrivial(gate > 0);
  if (c.want_sample)
    c.sample << (equi ? "fisheye" : "radtan") << " ray " << str(n) << " depth " << depth << " sigma " << sig << " gate " << gate;
}

PBT_PART(imu, 900, 40000, 600000) {
  // real preintegration
    int n = t.range(1, 20);
  double rate = t.pick(std::vector<double>{200, 100, 400, 20});
  Vector3d w = gen_vec(t, t.flip(0.2) ? 0.0 : 3.0), a = Vector3d(0, 0, 9.81) + gen_vec(t, 5);
  Vector3d bw = gen_vec(t, 0.1), ba = gen_vec(t, 0.5), g(0, 0, t.flip(0.8) ? 9.81 : t.real(1, 12));
  struct Rd {
    double t;
    Vector3d w, a;
  };
  std::vector<Rd> rd;
  for (int i = 0; i <= n; i++)
    rd.push_back({i / rate, w + 0.3 * gen_vec(t, 1) + bw, a + gen_vec(t, 2) + ba});
  auto integ = [&](const Vector3d &bw_, const Vector3d &ba_) {
    auto c1 = std::make_shared<ov_core::CpiV1>(1.7e-3, 2e-4, 2e-2, 3e-3, true);
    c1->setLinearizationPoints(bw_, ba_);
    for (int i = 0; i < n; i++)
      c1->feed_IMU(rd[i].t, rd[i + 1].t, rd[i].w, rd[i].a, rd[i + 1].w, rd[i + 1].a);
    return c1;
  };
  auto p = integ(bw, ba);
  double T = p->DT;
  // state 1, and state 2 that agrees with the readings under the true biases
  double db = t.flip(0.3) ? 0.0 : t.logreal(1e-6, 2e-2);
  Vector3d bw1 = bw + db * gen_vec(t, 1), ba1 = ba + 5 * db * gen_vec(t, 1);
  auto tr = integ(bw1, ba1);
  Matrix3d R1 = gen_rot(t);
  Vector3d v1 = gen_vec(t, 5), p1 = gen_vec(t, 50);
  Matrix3d R2 = tr->R_k2tau * R1;
  Vector3d v2 = v1 - g * T + R1.transpose() * tr->beta_tau, p2 = p1 + v1 * T - 0.5 * g * T * T + R1.transpose() * tr->alpha_tau;
  // disagreement
  double dis = t.flip(0.4) ? 0.0 : t.logreal(1e-6, 0.3);
  Vector3d dth = dis * gen_vec(t, 1), dv = dis * gen_vec(t, 1), dp = dis * gen_vec(t, 1), dbw = dis * gen_vec(t, 1), dba = dis * gen_vec(t, 1);
  R2 = expR(-dth) * R2;
  v2 += dv;
  p2 += dp;
  Eigen::Matrix<double, 15, 15> C;
  bool real_cov = t.flip(0.4), unit = false;
  if (real_cov)
    C = p->P_meas;
  else if ((unit = t.flip(0.5)))
    C.setIdentity();
  else
    C = gen_spd(t, 15, 1e-3, 1);
  if (real_cov) { // keep away from singular covariances of single short intervals
    VectorXd d = C.diagonal().cwiseSqrt();
    MatrixXd S = d.cwiseInverse().asDiagonal() * C * d.cwiseInverse().asDiagonal();
    if (Eigen::SelfAdjointEigenSolver<MatrixXd>(S).eigenvalues()(0) < 1e-5) {
      C = gen_spd(t, 15, 1e-3, 1);
      real_cov = false;
    }
  }
  Eigen::Vector4d qb = p->q_k2tau;
  if (t.flip())
    qb = -qb;
  Eigen::Vector3d al = p->alpha_tau, be = p->beta_tau, bal = p->b_a_lin, bwl = p->b_w_lin, gg = g;
  Factor_ImuCPIv1 f(p->DT, gg, al, be, qb, bal, bwl, p->J_q, p->J_b, p->J_a, p->H_b, p->H_a, C);
  Vector4d q1 = jplq(R1), q2 = jplq(R2);
  if (t.flip())
    q1 = -q1;
  if (t.flip())
    q2 = -q2;
  Params x{q1, vec3(bw1), vec3(v1), vec3(ba1), vec3(p1), q2, vec3(bw1 + dbw), vec3(v2), vec3(ba1 + dba), vec3(p2)};
  Val v = eval(f, x, std::vector<bool>(10, true));
  // expected raw residual up to second order in bias and rotation disagreement
  VectorXd e(15);
  double s2 = 2 * std::sin(dth.norm() / 2) / (dth.norm() > 0 ? dth.norm() : 1.0);
  e << (dth.norm() > 0 ? Vector3d(s2 * dth) : dth), dbw, R1 * dv, dba, R1 * dp;
  double x2 = (bw1 - bw).norm() * T, ea = x2 * x2 * 1.0 + x2 * dis * 0.6 + x2 * T * (bw1 - bw).norm();
  double av = a.norm() + 12 + 5 * db;
  VectorXd et(15);
  double rr = 1e-12;
  et << Vector3d::Constant(ea + rr), Vector3d::Constant(rr), Vector3d::Constant(av * T * x2 * x2 + 5 * db * T * x2 + rr * (1 + av * T) * 10), Vector3d::Constant(rr),
      Vector3d::Constant(av * T * T * x2 * x2 + 5 * db * T * T * x2 + rr * (1 + av * T * T) * 100);
  // the residual's overall rotation sign follows the quaternion signs; costs are compared both ways
  if (unit) {
    VectorXd raw = v.r; // whitening by identity
    VectorXd alt = raw;
    alt.head(3) = -raw.head(3);
    bool ok = true, ok2 = true;
    for (int i = 0; i < 15; i++) {
      c.metric("frac_tol:raw residual", std::min(std::abs(raw(i) - e(i)), std::abs(alt(i) - e(i))) / et(i));
      ok = ok && std::abs(raw(i) - e(i)) <= et(i);
      ok2 = ok2 && std::abs(alt(i) - e(i)) <= et(i);
    }
    REQUIRE(ok || ok2, "residual " << str(raw) << " expected " << str(e) << " within " << str(et));
  } else if (db == 0) {
    double cost = v.r.squaredNorm(), best = 1e300, size = 0;
    for (int s = 0; s < 2; s++) {
      VectorXd d = e;
      if (s)
        d.head(3) = -d.head(3);
      double q = d.dot(C.llt().solve(d));
      if (std::abs(q - cost) < best) {
        best = std::abs(q - cost);
        size = q;
      }
    }
    VectorXd sd = C.diagonal().cwiseSqrt();
    double fl = 0;
    for (int i = 0; i < 15; i++)
      fl += et(i) / sd(i) * 300;
    c.metric("frac_tol:whitened cost", best / (1e-6 * size + fl * fl + 2 * fl * std::sqrt(size)));
    REQUIRE(best <= 1e-6 * size + fl * fl + 2 * fl * std::sqrt(size), "whitened cost " << cost << " differs by " << best << " from " << size);
  }
  // Jacobians; the correction for the gyroscope bias is only first order in the bias change
  Eigen::LLT<MatrixXd> llt(MatrixXd(C).inverse());
  double ws = 0;
  MatrixXd W = MatrixXd(llt.matrixL()).transpose();
  ws = maxabs(W);
  double hs = unit ? 1e-4 : 1e-4;
  check_jacobians(
      c, t, f, x, hs,
      [&](int i, const MatrixXd &N) {
        double base = 1e-8 * (1 + av * T + p1.norm() * 1e-2) * ws;
        if (i == 1) // gyroscope bias: normalised first-order quaternion
          base += ws * T * (x2 * x2 + x2 * dis * 2 + 1e-4 * T * dis);
        return base + 1e-7 * maxabs(N);
      },
      {"rotation 1", "gyroscope bias 1", "velocity 1", "accelerometer bias 1", "position 1", "rotation 2", "gyroscope bias 2", "velocity 2", "accelerometer bias 2", "position 2"});
  c.label(logR(p->R_k2tau).norm() > 2.9 ? "near half turn" : "small turn");
  c.label(real_cov ? "preintegrated covariance" : unit ? "unit covariance" : "random covariance");
  c.nontrivial(n > 1 && (db > 0 || dis > 0));
  if (c.want_sample)
    c.sample << n << " readings over " << T << " s, bias change " << db << ", disagreement " << dis;
}
