// C26: trajectory alignment and association.
#include "pbt.h"
#include "trajmath.h"
#include "alignment/AlignTrajectory.h"
#include "alignment/AlignUtils.h"
#include "utils/print.h"
using namespace tm_;

static const std::vector<std::string> METHODS = {"posyaw", "se3", "sim3", "posyawsingle", "se3single", "none"};
static std::vector<Pose> gen_traj(pbt::Tape &t, pbt::Ctx &c, int n) {
  std::vector<Pose> g;
  int kind = t.range(0, 4);
  double m = t.logreal(0.3, 100), off = t.flip(0.2) ? t.sym(1000) : 0;
  Matrix3d tilt = gen_rot(t);
  Vector3d p = Vector3d::Zero(), o(off, -0.5 * off, 0.1 * off);
  Matrix3d R = gen_rot(t);
  double w = t.real(0.1, 1), r = 1 + t.unit();
  for (int i = 0; i < n; i++) {
    Vector3d q;
    if (kind == 0)
      q = m * gen_vec(t, 1);
    else if (kind == 1) // a walk
      q = (p += m / 10 * gen_vec(t, 1));
    else if (kind == 2) // a circle in a plane
      q = m * (tilt * Vector3d(std::cos(w * i), r * std::sin(w * i), 0));
    else if (kind == 3) // horizontal
      q = m * Vector3d(t.sym(1), t.sym(1), 0);
    else // nearly a line
      q = m * (tilt.col(0) * t.sym(1) + 0.05 * gen_vec(t, 1));
    R = expR(gen_vec(t, 0.3)) * R;
    g.push_back(mk(q + o, R));
  }
  c.label("shape:" + std::to_string(kind));
  return g;
}
static Pose moved(const Pose &x, const Sim &T) { return mk(T.s * T.R * x.head(3) + T.t, RGtoI(x) * T.R.transpose()); }

PBT_PART(alignment, 900, 120000, 1500000) {
  ov_core::Printer::setPrintLevel("SILENT");
  std::string method = t.pick(METHODS);
  bool single = method.find("single") != std::string::npos, yaw = method.find("yaw") != std::string::npos;
  int n = t.range(3, t.flip(0.2) ? 60 : 15);
  if (single && t.flip(0.2))
    n = 1;
  std::vector<Pose> es = gen_traj(t, c, n), gt;
  Sim T;
  if (method != "none") {
    T.R = yaw ? Rz(t.sym(M_PI)) : gen_rot(t);
    T.t = gen_vec(t, 50);
    if (method == "sim3")
      T.s = t.logreal(0.05, 20);
  }
  bool noisy = t.flip(0.5);
  double ns = noisy ? t.logreal(1e-3, 5) : 0;
  for (auto &e : es) {
    Pose g = moved(e, T);
    if (noisy)
      g = mk(Vector3d(g.head(3)) + ns * gen_vec(t, 1), expR(0.3 * gen_vec(t, std::min(1.0, ns))) * RGtoI(g));
    if (t.flip(0.3))
      g.tail(4) = -g.tail(4); // other sign, same rotation
    gt.push_back(g);
  }
  // single-pose methods are also reached through the number of poses to use
  std::string call = method;
  int na = -1;
  if (single && t.flip(0.3)) {
    call = yaw ? "posyaw" : "se3";
    na = 1;
  }
  Matrix3d R = Matrix3d::Constant(7);
  Vector3d p = Vector3d::Constant(7);
  double s = 7;
  std::vector<Pose> es0 = es, gt0 = gt;
  ov_eval::AlignTrajectory::align_trajectory(es, gt, R, p, s, call, na);
  REQUIRE(es == es0 && gt == gt0, "the trajectories were changed");
  // degrees of freedom
  pbt::near_mat(c, R * R.transpose(), Matrix3d::Identity(), 1e-9, "orthonormality of the rotation");
  REQUIRE(R.determinant() > 0, method << " returned a reflection");
  if (method != "sim3")
    REQUIRE(s == 1, method << " returned scale " << s);
  if (yaw)
    REQUIRE(std::fabs(R(2, 2) - 1) < 1e-12 && std::fabs(R(0, 2)) + std::fabs(R(1, 2)) + std::fabs(R(2, 0)) + std::fabs(R(2, 1)) < 1e-12,
            method << " returned a rotation that is not about gravity: " << str(R));
  if (method == "none")
    REQUIRE(R == Matrix3d::Identity() && p == Vector3d::Zero(), "no alignment requested but a transform was returned");
  Sim F;
  F.R = R;
  F.t = p;
  F.s = s;
  Sim ref = align_method(method, es, gt);
  double scale = 1;
  for (int i = 0; i < n; i++)
    scale = std::max(scale, std::max(es[i].head(3).norm() * T.s, gt[i].head(3).norm()));
  double spread = 0;
  for (int i = 0; i < n; i++)
    spread = std::max(spread, (gt[i].head(3) - gt[0].head(3)).norm());
  if (!noisy) {
    // an exactly transformed copy: the transform is recovered when it is determined by the data
    double det = single || method == "none" ? 1 : ref.margin;
    if (det > 1e-5) {
      double cond = single || method == "none" ? 1 : scale / std::max(spread, 1e-9) / det;
      double tol = 1e-11 * cond + 1e-9;
      pbt::near_mat(c, R, T.R, tol, "recovered rotation");
      pbt::near(c, s, T.s, tol * T.s, "recovered scale");
      pbt::near_mat(c, p, T.t, tol * scale * 10, "recovered translation");
      for (int i = 0; i < n; i++)
        pbt::near_mat(c, Vector3d(s * R * es[i].head(3) + p), Vector3d(gt[i].head(3)), tol * scale * 10, "aligned positions");
      c.nontrivial(method != "none" && rdist(T.R, Matrix3d::Identity()) > 1e-6);
      c.label("recovery checked " + method);
    } else
      c.label("not determined by the data");
  }
  // least-squares optimum within the degrees of freedom
  std::vector<Vector3d> a, b;
  for (int i = 0; i < n; i++) {
    a.push_back(es[i].head(3));
    b.push_back(gt[i].head(3));
  }
  if (!single && method != "none") {
    double cf = cost(F, a, b), cr = cost(ref, a, b), slack = 1e-11 * n * scale * scale;
    REQUIRE(cf <= cr * (1 + 1e-9) + slack, method << ": squared error " << cf << " although " << cr << " is possible (" << n << " poses)");
    // nudged and random alternatives are not better
    for (int k = 0; k < 4; k++) {
      Sim A = F;
      double h = k < 2 ? 1e-3 : M_PI;
      A.R = (yaw ? Rz(t.sym(h)) : expR(gen_vec(t, h))) * F.R;
      if (method == "sim3")
        A.s = F.s * (1 + t.sym(k < 2 ? 1e-3 : 0.5));
      Vector3d ma = Vector3d::Zero(), mb = Vector3d::Zero();
      for (int i = 0; i < n; i++) {
        ma += a[i] / n;
        mb += b[i] / n;
      }
      A.t = k % 2 ? Vector3d(mb - A.s * A.R * ma) : Vector3d(F.t + gen_vec(t, 1e-3 * scale));
      double ca = cost(A, a, b);
      REQUIRE(cf <= ca * (1 + 1e-9) + slack, method << ": squared error " << cf << " but another transform in its degrees of freedom has " << ca);
    }
    // and the same transform when it is well determined
    if (ref.margin > 1e-4) {
      double cond = scale / std::max(spread, 1e-9) / ref.margin;
      pbt::near_mat(c, R, ref.R, 1e-11 * cond + 1e-9, "least-squares rotation");
      pbt::near(c, s, ref.s, (1e-11 * cond + 1e-9) * ref.s, "least-squares scale");
      c.nontrivial(noisy);
      c.label("optimum checked " + method);
    }
  } else if (single) {
    pbt::near_mat(c, Vector3d(R * a[0] + p), b[0], 1e-10 * scale, "the first positions coincide");
    if (ref.margin > 1e-3) {
      pbt::near_mat(c, R, ref.R, 1e-9, "rotation from the first pose");
      c.nontrivial(noisy);
      c.label("optimum checked " + method);
    }
  }
  if (c.want_sample)
    c.sample << call << (na == 1 ? " (1 pose)" : "") << ", " << n << " poses spread over " << spread << " m, noise " << ns << ", rotation " << rdist(T.R, Matrix3d::Identity())
             << " rad, scale " << T.s;
}

PBT_PART(association, 900, 200000, 2500000) {
  ov_core::Printer::setPrintLevel("SILENT");
  double base = t.pick(std::vector<double>{0.0, 100.0, 1403636580.0});
  double maxd = t.pick(std::vector<double>{0.02, 0.005, 0.1});
  double off = t.flip(0.6) ? t.sym(1.0) : 0.0;
  std::vector<double> gt, es;
  int ng = t.range(0, 40), ne = t.range(0, 40);
  double per = t.pick(std::vector<double>{0.05, 0.005, 0.2}), x = base;
  for (int i = 0; i < ng; i++) {
    gt.push_back(x);
    x += per * (t.flip(0.3) ? t.real(0.2, 4) : 1.0);
  }
  double y = base + t.sym(0.3) - off;
  int ek = t.range(0, 2);
  for (int i = 0; i < ne; i++) {
    if (ek == 0 && !gt.empty() && i < ng) { // jittered copies of the ground-truth times
      double z = gt[i] + t.sym(1.2 * maxd) - off;
      if (es.empty() || z > es.back() + 1e-4)
        es.push_back(z);
    } else {
      es.push_back(y);
      y += (ek == 1 ? per : maxd) * t.real(0.2, 3);
    }
  }
  std::sort(es.begin(), es.end());
  bool cov = t.flip(), gcov = t.flip();
  std::vector<Pose> ep, gp;
  std::vector<Matrix3d> eo, epc, go, gpc;
  for (size_t i = 0; i < es.size(); i++) {
    ep.push_back(mk(Vector3d(i, 1, 0), gen_rot(t)));
    if (cov) {
      eo.push_back(Matrix3d::Constant(i + 1));
      epc.push_back(Matrix3d::Constant(i + 1.5));
    }
  }
  for (size_t i = 0; i < gt.size(); i++) {
    gp.push_back(mk(Vector3d(i, 2, 0), gen_rot(t)));
    if (gcov) {
      go.push_back(Matrix3d::Constant(1000 + i));
      gpc.push_back(Matrix3d::Constant(2000 + i));
    }
  }
  // reference: in order, every estimate takes the nearest ground truth after the last one taken, strictly within the limit
  std::vector<std::pair<int, int>> exp;
  bool ambiguous = false;
  int last = -1;
  for (size_t i = 0; i < es.size(); i++) {
    int best = -1;
    double bd = maxd;
    for (size_t j = last + 1; j < gt.size(); j++) {
      double d = std::fabs(gt[j] - (es[i] + off));
      if (std::fabs(d - maxd) < 1e-6 || (best >= 0 && std::fabs(d - bd) < 1e-6))
        ambiguous = true;
      if (d < bd) {
        bd = d;
        best = (int)j;
      }
    }
    if (best >= 0) {
      exp.push_back({(int)i, best});
      last = best;
    }
  }
  std::vector<double> es1 = es, gt1 = gt;
  std::vector<Pose> ep1 = ep, gp1 = gp;
  std::vector<Matrix3d> eo1 = eo, epc1 = epc, go1 = go, gpc1 = gpc;
  bool plain = t.flip(0.3);
  if (plain)
    ov_eval::AlignUtils::perform_association(off, maxd, es1, gt1, ep1, gp1);
  else
    ov_eval::AlignUtils::perform_association(off, maxd, es1, gt1, ep1, gp1, eo1, epc1, go1, gpc1);
  size_t m = es1.size();
  std::string in = std::to_string(es.size()) + " estimates and " + std::to_string(gt.size()) + " ground truths";
  REQUIRE(gt1.size() == m && ep1.size() == m && gp1.size() == m, "association of " << in << " returned " << m << " estimate times, " << gt1.size() << " ground-truth times, "
                                                                                  << ep1.size() << " and " << gp1.size() << " poses");
  if (!plain) {
    REQUIRE(eo1.size() == (cov ? m : 0) && epc1.size() == eo1.size(), "estimate covariances " << eo1.size() << " for " << m << " pairs");
    if (cov)
      REQUIRE(go1.size() == m && gpc1.size() == m, "ground-truth covariances " << go1.size() << " for " << m << " pairs");
  }
  int li = -1, lj = -1;
  std::vector<std::pair<int, int>> got;
  for (size_t k = 0; k < m; k++) {
    int i = (int)std::lround(ep1[k](0)), j = (int)std::lround(gp1[k](0));
    REQUIRE(i >= 0 && i < (int)es.size() && ep1[k] == ep[i], "estimated pose " << k << " was changed");
    REQUIRE(j >= 0 && j < (int)gt.size() && gp1[k] == gp[j], "ground-truth pose " << k << " was changed");
    REQUIRE(i > li && j > lj, "pair " << k << " reuses or reorders poses");
    li = i;
    lj = j;
    REQUIRE(gt1[k] == gt[j], "ground-truth time of pair " << k);
    REQUIRE(es1[k] == gt1[k], "associated times are not common: " << es1[k] << " and " << gt1[k]);
    double d = std::fabs(gt[j] - (es[i] + off));
    REQUIRE(d <= maxd, "pair " << k << " is " << d << " s apart, allowed " << maxd);
    if (!plain && cov) {
      REQUIRE(eo1[k] == eo[i] && epc1[k] == epc[i], "covariance of estimate " << i << " moved");
      REQUIRE(go1[k] == (gcov ? go[j] : Matrix3d(Matrix3d::Zero())) && gpc1[k] == (gcov ? gpc[j] : Matrix3d(Matrix3d::Zero())), "covariance of ground truth " << j << " moved");
    }
    got.push_back({i, j});
  }
  if (!ambiguous)
    REQUIRE(got == exp, "association of " << in << " found " << got.size() << " pairs, expected " << exp.size() << " (limit " << maxd << ", offset " << off << ")");
  c.nontrivial(m >= 1 && m < std::max(es.size(), gt.size()));
  c.label(m == 0 ? "no pairs" : m < 3 ? "1-2 pairs" : "3+ pairs");
  if (c.want_sample)
    c.sample << in << ", offset " << off << ", limit " << maxd << " -> " << m << " pairs";
}
