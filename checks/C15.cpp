// C15: continuous preintegration (both models).
#include "pbt.h"
#include "vmath.h"
#include <memory>
#include "cpi/CpiV1.h"
#include "cpi/CpiV2.h"
using namespace vm;
typedef Eigen::Matrix<long double, 3, 1> V3;
typedef Eigen::Matrix<long double, 3, 3> M3;
static M3 ser(const V3 &w, int s) { // sum_k [w]^k / (k+s)!
  M3 W = skewL(w), term = M3::Identity(), sum = M3::Zero();
  long double f = 1, n = w.norm(), b = 1;
  for (int i = 2; i <= s; i++)
    f *= i;
  for (int k = 0; k < 80; k++) {
    sum += term / f;
    term = term * W;
    b *= n;
    f *= (k + 1 + s);
    if (b / f < 1e-24L)
      break;
  }
  return sum;
}
struct Iv {
  double dt;
  Vector3d w0, a0, w1, a1;
};
struct Setup {
  std::vector<Iv> iv;
  Vector3d bw, ba, g;
  Matrix3d Rk; // global to k
  bool avg;
  int model;
};
struct Mean {
  M3 R = M3::Identity(); // k to tau
  V3 al = V3::Zero(), be = V3::Zero();
  long double T = 0;
};
/// piecewise constant readings (model 1) or local accelerations (model 2), integrated exactly
static Mean integrate(const Setup &s, const V3 &bw, const V3 &ba, const M3 &Rk) {
  Mean m;
  for (auto &v : s.iv) {
    long double dt = v.dt;
    V3 w = v.w0.cast<long double>() - bw, a = v.a0.cast<long double>() - ba;
    if (s.avg)
      w = (v.w0 + v.w1).cast<long double>() / 2 - bw;
    M3 Rn = ser(-w * dt, 0) * m.R;
    V3 gk = Rk * s.g.cast<long double>();
    if (s.avg)
      a = (v.a0 + v.a1).cast<long double>() / 2 - ba;
    if (s.model == 2)
      a -= s.avg ? V3((m.R * gk + Rn * gk) / 2) : V3(m.R * gk);
    M3 Rt = m.R.transpose();
    m.al += m.be * dt + Rt * ser(w * dt, 2) * a * dt * dt;
    m.be += Rt * ser(w * dt, 1) * a * dt;
    m.R = Rn;
    m.T += dt;
  }
  return m;
}
static std::shared_ptr<ov_core::CpiBase> run(const Setup &s, const double sg[4], bool analytic, int split = 1) {
  std::shared_ptr<ov_core::CpiBase> c;
  if (s.model == 1)
    c = std::make_shared<ov_core::CpiV1>(sg[0], sg[1], sg[2], sg[3], s.avg);
  else {
    auto v = std::make_shared<ov_core::CpiV2>(sg[0], sg[1], sg[2], sg[3], s.avg);
    v->state_transition_jacobians = !analytic;
    c = v;
  }
  c->setLinearizationPoints(s.bw, s.ba, jplq(s.Rk), s.g);
  double t = 0;
  for (auto &v : s.iv) {
    for (int k = 0; k < split; k++) {
      double a = t + v.dt * k / split, b = t + v.dt * (k + 1) / split;
      if (split == 1)
        c->feed_IMU(a, b, v.w0, v.a0, v.w1, v.a1);
      else if (s.avg) {
        Vector3d w = 0.5 * (v.w0 + v.w1), x = 0.5 * (v.a0 + v.a1);
        c->feed_IMU(a, b, w, x, w, x);
      } else
        c->feed_IMU(a, b, v.w0, v.a0);
    }
    t += v.dt;
  }
  return c;
}
static Setup gen(pbt::Tape &t, pbt::Ctx &c) {
  Setup s;
  s.model = t.range(1, 2);
  s.avg = t.flip();
  int n = t.range(1, t.flip(0.2) ? 40 : 10), kind = t.range(0, 4);
  double rate = t.pick(std::vector<double>{200, 100, 400, 1000, 20});
  double wm = kind == 0 ? t.logreal(1e-5, 2e-2) : kind == 1 ? 0.0 : t.logreal(0.02, 6);
  Vector3d w = wm * gen_dir(t), a = Vector3d(0, 0, 9.81) + gen_vec(t, t.flip(0.3) ? 30 : 4);
  s.bw = t.flip(0.2) ? Vector3d(Vector3d::Zero()) : gen_vec(t, 0.1);
  s.ba = t.flip(0.2) ? Vector3d(Vector3d::Zero()) : gen_vec(t, 0.5);
  s.g = t.flip(0.8) ? Vector3d(0, 0, 9.81) : Vector3d(gen_vec(t, 12));
  s.Rk = gen_rot(t);
  Vector3d wp = w, ap = a;
  for (int i = 0; i < n; i++) {
    Iv v;
    v.dt = t.flip(0.05) ? 0.0 : (t.flip(0.3) ? t.real(0.2, 2) : 1.0) / rate;
    v.w0 = wp + s.bw;
    v.a0 = ap + s.ba;
    wp = w + 0.3 * wm * gen_vec(t, 1);
    ap = a + gen_vec(t, 2);
    v.w1 = wp + s.bw;
    v.a1 = ap + s.ba;
    s.iv.push_back(v);
  }
  c.label("model " + std::to_string(s.model) + (s.avg ? " averaged" : ""));
  c.label(wm < 0.0087 ? "slow rotation" : "rotating");
  return s;
}
struct Bound { // sizes that scale rounding and truncation
  double T = 0, x = 0, A = 0, tr4 = 0, wdt = 0, cancel = 0, cancelJ = 0, first = 0, small = 0, smallJ = 0, cancelV = 0;
};
static Bound bound(const Setup &s) {
  Bound b;
  for (auto &v : s.iv) {
    Vector3d w = (s.avg ? Vector3d(0.5 * (v.w0 + v.w1)) : v.w0) - s.bw;
    double n = w.norm(), a = std::max(v.a0.norm(), v.a1.norm()) + s.ba.norm() + (s.model == 2 ? s.g.norm() : 0) + 1;
    b.T += v.dt;
    b.A = std::max(b.A, a);
    b.wdt = std::max(b.wdt, n * v.dt);
    b.tr4 += std::pow(n * v.dt, 5) / 20;
    b.first = std::max(b.first, n * v.dt);
    if (n < 0.0088)
      b.small += std::pow(n * v.dt, 3) / 2, b.smallJ = std::max(b.smallJ, std::pow(n * v.dt, 2) / 20);
    if (n > 0.0087) {
      b.cancel += 8e-15 / (n * n);   // f_2 loses digits for slow rotation
      b.cancelV += 1e-15 / n;
      b.cancelJ += 4e-15 / (n * n * n);
    }
  }
  return b;
}

PBT_PART(mean_and_jacobians, 600, 15000, 250000) {
  Setup s = gen(t, c);
  bool analytic = s.model == 1 || t.flip();
  const double sg[4] = {1.6968e-4, 1.9393e-5, 2e-3, 3e-3};
  auto p = run(s, sg, analytic);
  V3 bw = s.bw.cast<long double>(), ba = s.ba.cast<long double>();
  // the linearisation orientation as the code receives it
  Matrix3d Rq = jplR(jplq(s.Rk));
  M3 Rk = Rq.cast<long double>();
  Mean m = integrate(s, bw, ba, Rk);
  Bound b = bound(s);
  double T = b.T, A = b.A;
  pbt::near(c, p->DT, (double)m.T, 1e-12, "integration time");
  double tr = 1e-12 + b.small * 1.0;
  pbt::near_mat(c, p->R_k2tau, Matrix3d(m.R.cast<double>()), 10 * tr, "rotation");
  if (T > 0)
    pbt::near_mat(c, jplR(p->q_k2tau), p->R_k2tau, 1e-10 + 10 * tr, "quaternion of the rotation");
  pbt::near_mat(c, p->alpha_tau, Vector3d(m.al.cast<double>()), A * (T * T * tr * 10 + b.cancel) + 1e-13, "position change");
  pbt::near_mat(c, p->beta_tau, Vector3d(m.be.cast<double>()), A * (T * tr * 10 + b.cancelV) + 1e-13, "velocity change");
  // derivatives by differencing the reference
  auto f = [&](const VectorXd &d) {
    V3 x = bw + d.segment(0, 3).cast<long double>(), y = ba + d.segment(3, 3).cast<long double>();
    M3 R = ser(-d.segment(6, 3).cast<long double>(), 0) * Rk;
    Mean q = integrate(s, x, y, R);
    VectorXd o(9);
    M3 E = q.R * m.R.transpose();
    V3 r((E(2, 1) - E(1, 2)) / 2, (E(0, 2) - E(2, 0)) / 2, (E(1, 0) - E(0, 1)) / 2);
    long double sn = r.norm();
    if (sn > 1e-12L)
      r *= std::asin(sn) / sn;
    o << r.cast<double>(), (q.al - m.al).cast<double>(), (q.be - m.be).cast<double>();
    return o;
  };
  MatrixXd J = numdiff(f, 9, 9, 1e-3);
  // relative accuracy of the stored derivatives
  double rj = 1e-9 + 3 * b.small + b.smallJ + (analytic ? 0 : b.tr4);
  // fourth-order integration: terms of fifth order in the interval are lost, of which two or three steps are needed to reach position and velocity
  double k2 = analytic ? 0 : std::pow(b.wdt, 3) / 20, k3 = analytic ? 0 : std::pow(b.wdt, 2) / 20;
  double ca = analytic ? 1.0 : 0.0;
  double dm = 0;
  for (auto &v : s.iv)
    dm = std::max(dm, v.dt);
  double lin = (s.model == 2 && s.avg) ? s.g.norm() : 0, approx = lin * b.first; // gravity is linearised at the start of each interval when averaging
  pbt::near_mat(c, p->J_q, MatrixXd(J.block(0, 0, 3, 3)), T * rj * 10 + b.cancelV, "rotation w.r.t. gyroscope bias");
  pbt::near_mat(c, p->J_a, MatrixXd(J.block(3, 0, 3, 3)), A * (T * T * T * (rj * 10 + k3) + ca * b.cancelJ) + 0.5 * lin * dm * T * T * (1 + 2 * b.first), "position w.r.t. gyroscope bias");
  pbt::near_mat(c, p->J_b, MatrixXd(J.block(6, 0, 3, 3)), A * (T * T * (rj * 10 + k2) + ca * b.cancel) + lin * dm * T * (1 + 2 * b.first), "velocity w.r.t. gyroscope bias");
  pbt::near_mat(c, p->H_a, MatrixXd(J.block(3, 3, 3, 3)), T * T * (rj * 10 + k2) + ca * b.cancel, "position w.r.t. accelerometer bias");
  pbt::near_mat(c, p->H_b, MatrixXd(J.block(6, 3, 3, 3)), T * rj * 10 + b.cancelV, "velocity w.r.t. accelerometer bias");
  if (s.model == 2) {
    auto v = std::static_pointer_cast<ov_core::CpiV2>(p);
    double G = s.g.norm();
    pbt::near_mat(c, v->O_a, MatrixXd(J.block(3, 6, 3, 3)), G * (T * T * (rj * 10 + k2) + ca * b.cancel) + approx * T * T, "position w.r.t. orientation");
    pbt::near_mat(c, v->O_b, MatrixXd(J.block(6, 6, 3, 3)), G * (T * rj * 10 + b.cancelV) + approx * T, "velocity w.r.t. orientation");
  }
  c.nontrivial(s.iv.size() > 1 && b.wdt > 0);
  if (c.want_sample)
    c.sample << "model " << s.model << (s.avg ? ", averaged" : "") << (analytic ? ", closed-form Jacobians" : ", integrated Jacobians") << ", " << s.iv.size() << " intervals over " << T
             << " s, |w| dt " << b.wdt;
}

/// covariance of the readings' noise, integrated with many small steps
static MatrixXd noise_ref(const Setup &s, const double sg[4], int sub) {
  int N = s.model == 1 ? 15 : 18; // model 2: plus the orientation error at the start of the interval
  MatrixXd P = MatrixXd::Zero(N, N);
  Matrix3d R = Matrix3d::Identity();
  Vector3d gk = s.Rk * s.g;
  MatrixXd Q = MatrixXd::Zero(12, 12);
  for (int i = 0; i < 4; i++)
    Q.block(3 * i, 3 * i, 3, 3) = sg[i] * sg[i] * Matrix3d::Identity();
  for (auto &v : s.iv) {
    if (v.dt == 0)
      continue;
    Vector3d w = (s.avg ? Vector3d(0.5 * (v.w0 + v.w1)) : v.w0) - s.bw;
    Vector3d a = (s.avg ? Vector3d(0.5 * (v.a0 + v.a1)) : v.a0) - s.ba;
    Matrix3d Rs = R, Re = expR(-w * v.dt) * R;
    if (s.model == 2) {
      a -= s.avg ? Vector3d(0.5 * (Rs + Re) * gk) : Vector3d(Rs * gk);
      MatrixXd B = MatrixXd::Identity(N, N);
      B.block(15, 15, 3, 3).setZero();
      B.block(15, 0, 3, 3).setIdentity();
      P = (B * P * B.transpose()).eval();
    }
    double h = v.dt / sub;
    auto dot = [&](double tau, const MatrixXd &X) {
      Matrix3d Rt = (expR(-w * tau) * Rs).transpose();
      MatrixXd F = MatrixXd::Zero(N, N), G = MatrixXd::Zero(N, 12);
      F.block(0, 0, 3, 3) = -skew(w);
      F.block(0, 3, 3, 3) = -Matrix3d::Identity();
      F.block(6, 0, 3, 3) = -Rt * skew(a);
      F.block(6, 9, 3, 3) = -Rt;
      F.block(12, 6, 3, 3).setIdentity();
      if (s.model == 2)
        F.block(6, 15, 3, 3) = -Rt * skew(Rs * gk);
      G.block(0, 0, 3, 3) = -Matrix3d::Identity();
      G.block(3, 3, 3, 3).setIdentity();
      G.block(6, 6, 3, 3) = -Rt;
      G.block(9, 9, 3, 3).setIdentity();
      MatrixXd FX = F * X;
      return MatrixXd(FX + FX.transpose() + G * Q * G.transpose());
    };
    for (int k = 0; k < sub; k++) {
      double x = k * h;
      MatrixXd k1 = dot(x, P), k2 = dot(x + h / 2, P + h / 2 * k1), k3 = dot(x + h / 2, P + h / 2 * k2), k4 = dot(x + h, P + h * k3);
      P += h / 6 * (k1 + 2 * k2 + 2 * k3 + k4);
    }
    R = Re;
  }
  return P.topLeftCorner(15, 15);
}

PBT_PART(covariance, 600, 3000, 50000) {
  Setup s = gen(t, c);
  if (s.iv.size() > 15)
    s.iv.resize(15);
  double sg[4];
  for (int i = 0; i < 4; i++)
    sg[i] = t.flip(0.1) ? 0.0 : t.logreal(1e-5, 1e-1);
  auto p = run(s, sg, t.flip());
  Bound b = bound(s);
  MatrixXd P = p->P_meas, ref = noise_ref(s, sg, 4), coarse = noise_ref(s, sg, 1);
  REQUIRE(P.allFinite(), "covariance is not finite");
    VectorXd d = ref.diagonal().cwiseSqrt();
  // as accurate as a fourth-order integration with one step per interval
  double tol = 1e-9 + 3 * b.small + (s.model == 2 && s.avg ? 3 * b.first : 0), slack = 1e-9;
  for (int i = 0; i < 15; i++)
    for (int j = 0; j < 15; j++) {
      double sc = d(i) * d(j), order = 3 * std::abs(ref(i, j) - coarse(i, j));
      pbt::near(c, P(i, j), P(j, i), 1e-12 * sc + 1e-25, "symmetry");
      pbt::near(c, P(i, j), ref(i, j), tol * sc + order + 1e-25, "covariance relative to standard deviations");
      if (sc > 0)
        slack = std::max(slack, order / sc);
    }
  // scaled by standard deviations: no eigenvalue below rounding
  MatrixXd S = P;
  for (int i = 0; i < 15; i++)
    for (int j = 0; j < 15; j++) {
      double sc = d(i) * d(j);
      S(i, j) = sc > 0 ? P(i, j) / sc : 0;
    }
  double lo = Eigen::SelfAdjointEigenSolver<MatrixXd>(S).eigenvalues()(0);
  c.metric("most negative scaled eigenvalue", -lo);
  REQUIRE(lo > -15 * (slack + 3 * b.small), "covariance has scaled eigenvalue " << lo);
  c.nontrivial(s.iv.size() > 1);
  if (c.want_sample)
    c.sample << "model " << s.model << (s.avg ? ", averaged" : "") << ", " << s.iv.size() << " intervals over " << b.T << " s, |w| dt " << b.wdt << ", noise " << sg[0] << " " << sg[2];
}

// splitting intervals: one continuous integration
PBT_PART(splitting, 600, 20000, 300000) {
  Setup s = gen(t, c);
  const double sg[4] = {1.6968e-4, 1.9393e-5, 2e-3, 3e-3};
  int k = t.range(2, 8);
  auto p = run(s, sg, true), q = run(s, sg, true, k);
  Bound b = bound(s);
  double T = b.T, A = b.A, tr = 1e-12 + b.small, cn = b.cancel * (k + 1);
  pbt::near(c, q->DT, p->DT, 1e-12, "integration time");
  pbt::near_mat(c, q->R_k2tau, p->R_k2tau, 20 * tr, "rotation after splitting");
  if (s.model == 1) {
    pbt::near_mat(c, q->alpha_tau, p->alpha_tau, A * (T * T * tr * 20 + cn) + 1e-13, "position after splitting");
    pbt::near_mat(c, q->beta_tau, p->beta_tau, A * (T * tr * 20 + b.cancelV * (k + 1)) + 1e-13, "velocity after splitting");
    pbt::near_mat(c, q->J_q, p->J_q, T * (1e-11 + 3 * b.small + b.smallJ) * 10 + b.cancelV * (k + 1), "rotation Jacobian after splitting");
    pbt::near_mat(c, q->H_a, p->H_a, T * T * (1e-11 + 3 * b.small + b.smallJ) * 10 + cn, "accelerometer bias Jacobian after splitting");
    pbt::near_mat(c, q->J_b, p->J_b, A * (T * T * (1e-10 + 3 * b.small + b.smallJ) * 10 + cn), "gyroscope bias Jacobian after splitting");
  } else {
    // local acceleration constant per interval: converges to the continuous integration of the readings
    Setup m1 = s;
    m1.model = 1;
    Mean m = integrate(m1, s.bw.cast<long double>(), s.ba.cast<long double>(), M3::Identity());
    Vector3d gk = s.Rk * s.g;
    Vector3d be = m.be.cast<double>() - gk * T, al = m.al.cast<double>() - 0.5 * gk * T * T;
    double dm = 0;
    for (auto &v : s.iv)
      dm = std::max(dm, v.dt);
    for (int i = 0; i < 2; i++) {
      auto &x = i ? q : p;
      double e = b.wdt / (i ? k : 1), G = s.g.norm();
      double bd = G * (s.avg ? 0.5 * e * e : e); // average error of gravity over an interval
      pbt::near_mat(c, x->beta_tau, be, bd * T + A * (T * tr * 20 + b.cancelV * (k + 1)) + 1e-12, std::string("velocity against continuous integration") + (s.avg ? " (averaged)" : ""));
      pbt::near_mat(c, x->alpha_tau, al, bd * T * T + (s.avg ? 0.3 * G * e * dm / (i ? k : 1) * T : 0) + A * (T * T * tr * 20 + cn) + 1e-12, std::string("position against continuous integration") + (s.avg ? " (averaged)" : ""));
    }
  }
  c.nontrivial(b.wdt > 0);
  if (c.want_sample)
    c.sample << "model " << s.model << (s.avg ? ", averaged" : "") << ", " << s.iv.size() << " intervals over " << T << " s split in " << k;
}
