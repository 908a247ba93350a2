// C27: reported trajectory errors against independent definitions (through files, as the tools use it).
#include "forkrun.h"
#include "pbt.h"
#include "trajmath.h"
#include "calc/ResultTrajectory.h"
#include "utils/print.h"
#include <fstream>
using namespace tm_;
using ov_eval::ResultTrajectory;
using ov_eval::Statistics;
static const double DEG = 180.0 / M_PI;
static const std::vector<std::string> METHODS = {"posyaw", "se3", "sim3", "posyawsingle", "se3single", "none"};

struct Traj {
  std::vector<double> t;
  std::vector<Pose> x;
  std::vector<Matrix3d> Pr, Pp; // empty if the file has none
};
static void write(const std::string &path, const Traj &a) {
  FILE *f = fopen(path.c_str(), "w");
  fprintf(f, "# timestamp tx ty tz qx qy qz qw\n");
  for (size_t i = 0; i < a.t.size(); i++) {
    fprintf(f, "%.9f", a.t[i]);
    for (int k = 0; k < 7; k++)
      fprintf(f, " %.17g", a.x[i](k));
    if (!a.Pr.empty())
      for (auto *P : {&a.Pr[i], &a.Pp[i]})
        fprintf(f, " %.17g %.17g %.17g %.17g %.17g %.17g", (*P)(0, 0), (*P)(0, 1), (*P)(0, 2), (*P)(1, 1), (*P)(1, 2), (*P)(2, 2));
    fprintf(f, "\n");
  }
  fclose(f);
}
struct Setup {
  Traj est, gt;
  std::string method;
  std::vector<int> ie, ig; // associated pairs
  double noise;
};
static Setup gen(pbt::Tape &t, pbt::Ctx &c, int nmax) {
  Setup s;
  s.method = t.pick(METHODS);
  int n = t.range(4, nmax);
  double base = t.pick(std::vector<double>{0.0, 100.0, 1403636580.0});
  double step = t.logreal(0.02, 1.5); // metres between poses
  bool planar = t.flip(0.2), pauses = t.flip(0.2);
  Vector3d p = gen_vec(t, 20), v = Vector3d(1, 0, 0);
  Matrix3d R = gen_rot(t);
  Sim T;
  bool yaw = s.method.find("yaw") != std::string::npos;
  if (s.method != "none") {
    T.R = yaw ? Rz(t.sym(M_PI)) : gen_rot(t);
    T.t = gen_vec(t, 30);
    if (s.method == "sim3")
      T.s = t.logreal(0.2, 5);
  }
  s.noise = t.flip(0.2) ? 0.0 : t.logreal(1e-3, 1.0);
  double on = s.noise == 0 ? 0 : t.logreal(1e-3, t.flip(0.2) ? 3.0 : 0.3);
  bool cov = t.flip(0.6), gcov = t.flip(0.3);
  double tm = base;
  for (int i = 0; i < n; i++) {
    v = expR(gen_vec(t, 0.6)) * v;
    if (planar)
      v(2) = 0;
    p += step * (pauses && t.flip(0.2) ? 0.0 : t.real(0.3, 1)) * (v.norm() > 1e-3 ? v.normalized() : Vector3d(1, 0, 0));
    R = expR(gen_vec(t, 0.5)) * R;
    tm += t.real(0.06, 0.3);
    bool in_gt = i < 3 || !t.flip(0.15), in_est = i < 3 || !t.flip(0.2);
    double dt = t.sym(0.018);
    if (i >= 3 && t.flip(0.1))
      dt = 0.022 + 0.005 * t.unit(); // outside the tolerance
    double tg = std::round(tm * 1e9) / 1e9, te = std::round((tm + dt) * 1e9) / 1e9;
    bool match = in_gt && in_est && std::fabs(dt) < 0.02;
    if (in_gt) {
      if (match)
        s.ig.push_back((int)s.gt.t.size());
      s.gt.t.push_back(tg);
      s.gt.x.push_back(mk(p, R));
      if (t.flip(0.3))
        s.gt.x.back().tail(4) *= -1;
      if (gcov) {
        s.gt.Pr.push_back(gen_spd(t, 3, 1e-3, 1e-1));
        s.gt.Pp.push_back(gen_spd(t, 3, 1e-3, 1e-1));
      }
    }
    if (in_est) {
      if (match)
        s.ie.push_back((int)s.est.t.size());
      s.est.t.push_back(te);
      // noisy copy described in another world: the inverse of the transform
      Vector3d q = p + s.noise * gen_vec(t, 1);
      Matrix3d Rn = expR(on * gen_vec(t, 1)) * R;
      s.est.x.push_back(mk(T.R.transpose() * (q - T.t) / T.s, Rn * T.R));
      if (t.flip(0.3))
        s.est.x.back().tail(4) *= -1;
      if (cov) {
        double sc = t.logreal(1e-3, 1);
        s.est.Pr.push_back(gen_spd(t, 3, 1e-3, 1e-1) * sc * sc);
        s.est.Pp.push_back(gen_spd(t, 3, 1e-3, 1e-1) * sc * sc);
      }
    }
  }
  c.label(s.method);
  return s;
}
static bool determined(const Setup &s) {
  std::vector<Pose> e, g;
  for (size_t k = 0; k < s.ie.size(); k++) {
    e.push_back(s.est.x[s.ie[k]]);
    g.push_back(s.gt.x[s.ig[k]]);
  }
  return align_method(s.method, e, g).margin > 3e-3 && align_method(s.method, g, e).margin > 3e-3;
}
static void stats_ok(pbt::Ctx &c, const Statistics &s, const std::string &w) {
  if (s.values.empty())
    return;
  double m = 0, r = 0, mx = s.values[0], mn = s.values[0];
  for (double v : s.values) {
    m += v / s.values.size();
    r += v * v / s.values.size();
    mx = std::max(mx, v);
    mn = std::min(mn, v);
  }
  double sc = std::max(std::fabs(mx), std::fabs(mn)) + 1e-12;
  pbt::near(c, s.mean, m, 1e-9 * sc, "mean #" + w);
  pbt::near(c, s.rmse, std::sqrt(r), 1e-9 * sc, "rmse #" + w);
  REQUIRE(s.max == mx && s.min == mn, "extremes of " << w << " not computed");
}
static double wrapd(double d) { return d - 360 * std::round(d / 360); }
static void times_ok(const Statistics &s, const std::vector<double> &tm, const std::string &w) {
  REQUIRE(s.timestamps.size() == tm.size() && s.values.size() == tm.size(),
          w << " has " << s.values.size() << " values and " << s.timestamps.size() << " times for " << tm.size() << " poses");
  for (size_t i = 0; i < tm.size(); i++)
    REQUIRE(std::fabs(s.timestamps[i] - tm[i]) < 1e-6, w << " time " << i);
}
static Vector3d rpy(const Matrix3d &R) { // R = Rz Ry Rx
  return Vector3d(std::atan2(R(2, 1), R(2, 2)), std::atan2(-R(2, 0), std::hypot(R(0, 0), R(1, 0))), std::atan2(R(1, 0), R(0, 0)));
}

PBT_PART(metrics, 1800, 30000, 500000) {
  ov_core::Printer::setPrintLevel("SILENT");
  Setup s = gen(t, c, t.flip(0.2) ? 60 : 18);
  if (!determined(s)) {
    c.label("alignment not determined by the data");
    return;
  }
  std::string d = pbt::scratch_dir();
  write(d + "/est.txt", s.est);
  write(d + "/gt.txt", s.gt);
  ResultTrajectory res(d + "/est.txt", d + "/gt.txt", s.method);
  int n = (int)s.ie.size();
  std::vector<Pose> e, g;
  std::vector<double> tm;
  for (int k = 0; k < n; k++) {
    e.push_back(s.est.x[s.ie[k]]);
    g.push_back(s.gt.x[s.ig[k]]);
    tm.push_back(s.gt.t[s.ig[k]]);
  }
  Sim A = align_method(s.method, e, g), B = align_method(s.method, g, e);
  std::vector<Matrix3d> Re, Rg, RgB; // body to world
  std::vector<Vector3d> pe, pg, pgB;
  double scale = 1;
  for (int k = 0; k < n; k++) {
    Re.push_back(A.R * RGtoI(e[k]).transpose());
    pe.push_back(A.s * A.R * e[k].head(3) + A.t);
    Rg.push_back(RGtoI(g[k]).transpose());
    pg.push_back(g[k].head(3));
    RgB.push_back(B.R * Rg[k]);
    pgB.push_back(B.s * B.R * pg[k] + B.t);
    scale = std::max({scale, pg[k].norm(), e[k].head(3).norm(), A.t.norm(), B.t.norm()});
  }
  double tp = 1e-11 * scale * scale / std::min(A.margin, B.margin), to = 1e-6 + 1e-8 / std::min(A.margin, B.margin);
  bool perfect = s.noise == 0;
  // absolute errors
  Statistics so, sp, so2, sp2;
  if (t.flip(0.3)) { // results are overwritten
    so.values = {1, 2};
    so.timestamps = {1, 2};
    sp2.values = {4};
  }
  res.calculate_ate(so, sp);
  res.calculate_ate_2d(so2, sp2);
  times_ok(so, tm, "ATE orientation");
  times_ok(sp, tm, "ATE position");
  times_ok(so2, tm, "2d ATE orientation");
  times_ok(sp2, tm, "2d ATE position");
  for (int k = 0; k < n; k++) {
    Matrix3d E = Re[k] * Rg[k].transpose();
    double a = rdist(Re[k], Rg[k]) * DEG;
    pbt::near(c, so.values[k], rdist(Re[k].transpose(), Rg[k].transpose()) * DEG, a > 170 ? 0.01 : to, "absolute orientation error");
    pbt::near(c, sp.values[k], (pg[k] - pe[k]).norm(), tp, "absolute position error");
    pbt::near(c, sp2.values[k], (pg[k] - pe[k]).head(2).norm(), tp, "horizontal position error");
    if (a < 170)
      pbt::near(c, so2.values[k], logR(E)(2) * DEG, to, "yaw error");
    if (perfect) {
      pbt::near(c, so.values[k], 0, to, "absolute orientation error of a perfect estimate");
      pbt::near(c, sp.values[k], 0, tp, "absolute position error of a perfect estimate");
    }
  }
  stats_ok(c, so, "ATE orientation");
  stats_ok(c, sp, "ATE position");
  stats_ok(c, so2, "2d ATE orientation");
  stats_ok(c, sp2, "2d ATE position");
  // relative errors
  std::vector<double> acc(1, 0.0);
  for (int k = 1; k < n; k++)
    acc.push_back(acc.back() + (pg[k] - pg[k - 1]).norm());
  std::vector<double> lens;
  int nl = t.range(1, 3);
  for (int i = 0; i < nl; i++)
    lens.push_back(t.flip(0.1) ? 0.0 : std::round(100 * acc.back() * t.real(0, 1.2)) / 100);
  std::map<double, std::pair<Statistics, Statistics>> rpe;
  res.calculate_rpe(lens, rpe);
  size_t segs = 0;
  for (double L : lens) {
    REQUIRE(rpe.count(L) == 1, "no relative error for segment length " << L);
    const Statistics &ro = rpe.at(L).first, &rp = rpe.at(L).second;
    std::vector<int> end(n, -1);
    bool amb = false;
    for (int a = 0; a < n; a++) {
      double be = 0.5;
      for (int b = a; b < n; b++) {
        double x = std::fabs(acc[b] - acc[a] - L);
        if (std::fabs(x - be) < 1e-9)
          amb = true;
        if (x < be) {
          be = x;
          end[a] = b;
        }
      }
    }
    if (amb) { // standing still: several equally good segment ends
      c.label("ambiguous segment");
      continue;
    }
    std::vector<double> st;
    std::vector<int> is;
    for (int a = 0; a < n; a++)
      if (end[a] >= 0) {
        st.push_back(tm[a]);
        is.push_back(a);
      }
    times_ok(ro, st, "RPE orientation");
    times_ok(rp, st, "RPE position");
    segs += is.size();
    for (size_t k = 0; k < is.size(); k++) {
      int a = is[k], b = end[a];
      Matrix3d dRe = Re[a].transpose() * Re[b], dRg = Rg[a].transpose() * Rg[b];
      Vector3d dpe = Re[a].transpose() * (pe[b] - pe[a]), dpg = Rg[a].transpose() * (pg[b] - pg[a]);
      double ang = rdist(dRg, dRe) * DEG;
      pbt::near(c, ro.values[k], ang, ang > 170 ? 0.01 : to, "relative orientation error");
      pbt::near(c, rp.values[k], (dpe - dpg).norm(), tp, "relative position error");
      if (perfect) {
        pbt::near(c, ro.values[k], 0, to, "relative orientation error of a perfect estimate");
        pbt::near(c, rp.values[k], 0, tp, "relative position error of a perfect estimate");
      }
    }
    stats_ok(c, ro, "RPE orientation");
    stats_ok(c, rp, "RPE position");
  }
  c.label(segs ? "relative segments" : "no segment of the length");
  // normalised errors
  bool cov = !s.est.Pr.empty();
  Statistics no, np;
  res.calculate_nees(no, np);
  if (cov) {
    times_ok(no, tm, "NEES orientation");
    times_ok(np, tm, "NEES position");
    for (int k = 0; k < n; k++) {
      const Matrix3d &Pr = s.est.Pr[s.ie[k]], &Pp = s.est.Pp[s.ie[k]];
      Matrix3d Rest = RGtoI(e[k]).transpose();
      // R_GtoI_gt = Exp(-err) R_GtoI_est
      Vector3d eo = logR((RgB[k].transpose() * Rest).transpose());
      Vector3d ep = pgB[k] - e[k].head(3);
      double vo = eo.dot(Pr.ldlt().solve(eo)), vp = ep.dot(Pp.ldlt().solve(ep));
      double io = Pr.inverse().norm(), ip = Pp.inverse().norm();
      double dob = to / DEG;
      if (eo.norm() < 3.0)
        pbt::near(c, no.values[k], vo, io * (2 * eo.norm() * dob + dob * dob) + 1e-9 * vo, "orientation NEES");
      pbt::near(c, np.values[k], vp, ip * (2 * ep.norm() * tp + tp * tp) + 1e-9 * vp, "position NEES");
    }
    stats_ok(c, no, "NEES orientation");
    stats_ok(c, np, "NEES position");
    c.label("normalised errors");
  } else
    REQUIRE(no.values.empty() && np.values.empty(), "normalised errors without covariances");
  // per-axis errors
  Statistics X[9];
  res.calculate_error(X[0], X[1], X[2], X[3], X[4], X[5], X[6], X[7], X[8]);
  const char *NM[9] = {"x", "y", "z", "orientation x", "orientation y", "orientation z", "roll", "pitch", "yaw"};
  for (int a = 0; a < 9; a++) {
    times_ok(X[a], tm, std::string("error in ") + NM[a]);
    REQUIRE(X[a].values_bound.size() == (cov ? (size_t)n : 0), "bounds for " << NM[a] << ": " << X[a].values_bound.size());
    stats_ok(c, X[a], NM[a]);
  }
  for (int k = 0; k < n; k++) {
    Matrix3d Rest = RGtoI(e[k]).transpose(), Rgt = RgB[k];
    Vector3d ep = pgB[k] - e[k].head(3);
    Vector3d el = logR(Rest.transpose() * Rgt); // R_ItoG_gt = R_ItoG_est Exp(err)
    double th = el.norm();
    Vector3d eg = Rest * (th > 1e-9 ? Vector3d(el / th * 2 * std::sin(th / 2)) : el) * DEG;
    Vector3d ye = rpy(Rest), yg = rpy(Rgt), ry = (yg - ye) * DEG;
    double gl = std::min(std::cos(ye(1)), std::cos(yg(1)));
    for (int a = 0; a < 3; a++) {
      pbt::near(c, X[a].values[k], ep(a), tp, "position error per axis");
      if (th < 3.0)
        pbt::near(c, X[3 + a].values[k], eg(a), to, "orientation error per axis");
      if (gl > 1e-2) {
        double w = wrapd(ry(a));
        REQUIRE(std::fabs(X[6 + a].values[k]) <= 180 + 1e-9, NM[6 + a] << " error not wrapped: " << X[6 + a].values[k]);
        pbt::near(c, wrapd(X[6 + a].values[k] - w), 0, to / gl / gl, "roll, pitch, yaw errors");
        if (std::fabs(std::fabs(w) - 180) > 0.01)
          pbt::near(c, X[6 + a].values[k], w, to / gl / gl, "wrapped roll, pitch, yaw errors");
      }
    }
    if (perfect)
      for (int a = 0; a < 9; a++)
        if (a < 6 || gl > 1e-2)
          pbt::near(c, X[a].values[k], 0, (a < 3 ? tp : a < 6 ? to : to / gl / gl), "errors of a perfect estimate");
    if (cov) {
      const Matrix3d &Pr = s.est.Pr[s.ie[k]], &Pp = s.est.Pp[s.ie[k]];
      Matrix3d Pg = Rest * Pr * Rest.transpose();
      Matrix3d J = numdiff([&](const VectorXd &w) { return VectorXd(rpy(Rest * expR(w))); }, 3, 3, 1e-4);
      Matrix3d Py = J * Pr * J.transpose();
      for (int a = 0; a < 3; a++) {
        pbt::near(c, X[a].values_bound[k], 3 * std::sqrt(Pp(a, a)), 1e-9 * (1 + std::sqrt(Pp(a, a))), "position bound");
        pbt::near(c, X[3 + a].values_bound[k], 3 * DEG * std::sqrt(Pg(a, a)), 1e-7 * DEG * std::sqrt(Pg.trace()), "orientation bound");
        if (std::cos(ye(1)) > 0.05 && std::fabs(std::fabs(ye(0)) - M_PI) > 1e-2 && std::fabs(std::fabs(ye(2)) - M_PI) > 1e-2)
          pbt::near(c, X[6 + a].values_bound[k], 3 * DEG * std::sqrt(Py(a, a)), 1e-5 * DEG * std::sqrt(Py.trace()), "roll, pitch, yaw bound");
      }
    }
  }
  c.nontrivial(!perfect && n >= 4);
  if (c.want_sample)
    c.sample << s.method << ", " << s.est.t.size() << " estimates, " << s.gt.t.size() << " ground truths, " << n << " pairs, noise " << s.noise << " m, path " << acc.back()
             << " m, " << segs << " relative segments" << (cov ? ", covariances" : "");
}

// moving the estimate's world by a transform the method removes does not change the errors
PBT_PART(invariance, 1800, 15000, 250000) {
  ov_core::Printer::setPrintLevel("SILENT");
  Setup s = gen(t, c, 15);
  if (s.method == "none" || !determined(s)) {
    c.label("nothing to remove or not determined");
    return;
  }
  Sim T;
  T.R = s.method.find("yaw") != std::string::npos ? Rz(t.sym(M_PI)) : gen_rot(t);
  T.t = gen_vec(t, 30);
  if (s.method == "sim3")
    T.s = t.logreal(0.3, 3);
  Traj m = s.est;
  double scale = 1;
  for (auto &x : m.x) {
    x = mk(T.s * T.R * x.head(3) + T.t, RGtoI(x) * T.R.transpose());
    scale = std::max(scale, x.head(3).norm());
  }
  for (auto &x : s.gt.x)
    scale = std::max(scale, x.head(3).norm());
  std::string d = pbt::scratch_dir();
  write(d + "/est.txt", s.est);
  write(d + "/est2.txt", m);
  write(d + "/gt.txt", s.gt);
  ResultTrajectory a(d + "/est.txt", d + "/gt.txt", s.method), b(d + "/est2.txt", d + "/gt.txt", s.method);
  Statistics ao, ap, bo, bp;
  a.calculate_ate(ao, ap);
  b.calculate_ate(bo, bp);
  REQUIRE(ao.values.size() == s.ie.size() && bo.values.size() == s.ie.size(), "number of errors");
  for (size_t k = 0; k < ao.values.size(); k++) {
    pbt::near(c, ao.values[k], bo.values[k], ao.values[k] > 170 ? 0.02 : 1e-4, "orientation errors after moving the estimate");
    pbt::near(c, ap.values[k], bp.values[k], 1e-9 * scale * scale, "position errors after moving the estimate");
  }
  double L = 2 * t.unit();
  std::map<double, std::pair<Statistics, Statistics>> ra, rb;
  a.calculate_rpe({L}, ra);
  b.calculate_rpe({L}, rb);
  REQUIRE(ra[L].second.values.size() == rb[L].second.values.size(), "number of segments");
  for (size_t k = 0; k < ra[L].second.values.size(); k++)
    pbt::near(c, ra[L].second.values[k], rb[L].second.values[k], 1e-9 * scale * scale, "relative errors after moving the estimate");
  c.nontrivial(s.noise > 0);
  if (c.want_sample)
    c.sample << s.method << ", " << s.ie.size() << " pairs, moved by " << rdist(T.R, Matrix3d::Identity()) << " rad, scale " << T.s;
}

// fewer than three pairs cannot be evaluated
PBT_PART(too_few, 200, 400, 4000) {
  int pairs = t.range(0, 4), extra = t.range(0, 3);
  Traj e, g;
  for (int i = 0; i < 4 + extra; i++) {
    g.t.push_back(10 + i);
    e.t.push_back(10 + i + (i < pairs ? t.sym(0.018) : t.real(0.03, 0.5)));
    g.x.push_back(mk(gen_vec(t, 5), gen_rot(t)));
    e.x.push_back(mk(gen_vec(t, 5), gen_rot(t)));
  }
  std::string d = pbt::scratch_dir();
  write(d + "/est.txt", e);
  write(d + "/gt.txt", g);
  std::string m = t.pick(METHODS);
  auto r = pbt::run_child([&]() { ResultTrajectory(d + "/est.txt", d + "/gt.txt", m); });
  REQUIRE(r.returned == (pairs >= 3), pairs << " associated poses: " << (r.returned ? "evaluated" : "refused") << " status " << r.status);
  if (!r.returned)
    REQUIRE(r.status == EXIT_FAILURE, "refused with status " << r.status);
  c.nontrivial(pairs > 0);
  if (c.want_sample)
    c.sample << pairs << " pairs of " << e.t.size() << " poses";
}
