// C11: triangulation and refinement of features.
#include "pbt.h"
#include "vmath.h"
#include "feat/Feature.h"
#include "feat/FeatureInitializer.h"
#include "feat/FeatureInitializerOptions.h"
#include "utils/print.h"
#include <memory>
using namespace vm;
using ov_core::Feature;
using ov_core::FeatureInitializer;
using ov_core::FeatureInitializerOptions;
typedef std::unordered_map<size_t, std::unordered_map<double, FeatureInitializer::ClonePose>> Clones;

struct Meas {
  size_t cam;
  double ts;
  Matrix3d R; // global to camera
  Vector3d p; // camera in global
  Vector2d z; // float-valued normalised coordinates
};
struct Scene {
  std::vector<Meas> m;
  Vector3d pf;
  bool behind = false;
  double noise = 0;
};
static Scene gen_scene(pbt::Tape &t, pbt::Ctx &c, bool wide) {
  Scene s;
  int ncam = t.range(1, 3), nt = t.range(1, t.flip(0.2) ? 15 : 6);
  int kind = t.range(0, 9); // 8: no parallax, 9: behind
  double depth = wide ? t.logreal(0.03, 200) : t.logreal(0.3, 50);
  double base = kind == 8 ? (t.flip() ? 0.0 : t.logreal(1e-9, 1e-4)) : depth * t.logreal(wide ? 5e-3 : 0.05, 1.0);
  Matrix3d RG = gen_rot(t);
  Vector3d pG = gen_vec(t, t.flip(0.2) ? 1000 : 10);
  s.behind = kind == 9;
  // in a local frame with the first camera near the origin looking along z
  Vector3d pl(depth * t.sym(0.7), depth * t.sym(0.7), depth);
  Vector3d dir = gen_dir(t);
  bool line = t.flip(0.3), stereo_only = t.flip(0.15);
  s.noise = t.flip(0.5) ? 0.0 : t.logreal(1e-5, 2e-2);
  std::vector<Vector3d> ext;
  std::vector<Matrix3d> exR;
  for (int i = 0; i < ncam; i++) {
    ext.push_back(i == 0 ? Vector3d(0, 0, 0) : Vector3d((kind == 8 ? base : std::max(base, 0.05)) * gen_vec(t, 0.3)));
    exR.push_back(expR(gen_vec(t, 0.15)));
  }
  for (int k = 0; k < nt; k++) {
    Vector3d p = line ? Vector3d(dir * base * t.unit()) : Vector3d(base * gen_vec(t, 0.5));
    if (stereo_only)
      p.setZero();
    Matrix3d R = expR(gen_vec(t, 0.25));
    for (int i = 0; i < ncam; i++) {
      if (nt * ncam > 2 && t.flip(0.1))
        continue;
      Meas m;
      m.cam = i == 2 ? 7 : i;
      m.ts = 100 + 0.1 * k;
      Matrix3d Rc = exR[i] * R;
      Vector3d pc = p + R.transpose() * ext[i];
      Vector3d x = Rc * (pl - pc) * (s.behind ? -1 : 1); // behind: every camera is turned away from the point
      if (s.behind) {
        Matrix3d F = Eigen::Vector3d(-1, 1, -1).asDiagonal();
        x = F * (Rc * (pl - pc));
        Rc = F * Rc;
      }
      if (s.behind ? x(2) > -0.1 * depth : x(2) < 0.1 * depth)
        continue;
      Vector2d z(x(0) / x(2), x(1) / x(2));
      if (z.norm() > 2.5)
        continue;
      z += s.noise * Vector2d(t.gauss(), t.gauss());
      m.z = z.cast<float>().cast<double>();
      m.R = Rc * RG.transpose();
      m.p = pG + RG * pc;
      s.m.push_back(m);
    }
  }
  s.pf = pG + RG * pl;
  c.label(s.behind ? "behind" : kind == 8 ? "no parallax" : "ordinary");
  return s;
}
static void build(const Scene &s, std::shared_ptr<Feature> &f, Clones &cl) {
  f = std::make_shared<Feature>();
  f->featid = 1;
  f->to_delete = false;
  f->p_FinA.setConstant(-5);
  f->p_FinG.setConstant(-5);
  cl.clear();
  for (auto &m : s.m) {
    Eigen::VectorXf u(2), n(2);
    u << 1, 1;
    n << (float)m.z(0), (float)m.z(1);
    f->uvs[m.cam].push_back(u);
    f->uvs_norm[m.cam].push_back(n);
    f->timestamps[m.cam].push_back(m.ts);
    cl[m.cam].insert({m.ts, FeatureInitializer::ClonePose(m.R, m.p)});
  }
}
/// the measurement used as anchor: last one of a camera with most
static const Meas *anchor(const Scene &s, const Feature &f) {
  std::map<size_t, int> n;
  int most = 0;
  for (auto &m : s.m)
    most = std::max(most, ++n[m.cam]);
  const Meas *last = nullptr;
  for (auto &m : s.m)
    if ((int)m.cam == f.anchor_cam_id)
      last = &m;
  REQUIRE(last != nullptr, "anchor camera " << f.anchor_cam_id << " has no observation");
  REQUIRE(n[f.anchor_cam_id] == most, "anchor camera " << f.anchor_cam_id << " has " << n[f.anchor_cam_id] << " observations, another has " << most);
  REQUIRE(last->ts == f.anchor_clone_timestamp, "anchor time " << f.anchor_clone_timestamp << " is not the last observation " << last->ts);
  return last;
}
static Vector3d ray(const Meas &m) { return (m.R.transpose() * Vector3d(m.z(0), m.z(1), 1)).normalized(); }
static double reproj(const Scene &s, const Vector3d &p, double *slack = nullptr) {
  double e = 0, sl = 0;
  for (auto &m : s.m) {
    Vector3d x = m.R * (p - m.p);
    Vector2d z(x(0) / x(2), x(1) / x(2)), r = m.z - z;
    e += r.squaredNorm();
    // residuals are evaluated in single precision
    double d = 2.5e-7 * (1 + z.norm());
    sl += 2 * r.norm() * d + d * d;
  }
  if (slack)
    *slack = sl;
  return e;
}
/// standard deviation of the point for unit noise of the normalised coordinates
static double sigma1(const Scene &s, const Vector3d &p) {
  Matrix3d L = Matrix3d::Zero();
  for (auto &m : s.m) {
    Vector3d x = m.R * (p - m.p);
    Eigen::Matrix<double, 2, 3> H;
    H << 1 / x(2), 0, -x(0) / x(2) / x(2), 0, 1 / x(2), -x(1) / x(2) / x(2);
    L += (H * m.R).transpose() * (H * m.R);
  }
  Eigen::SelfAdjointEigenSolver<Matrix3d> es(L);
  if (es.eigenvalues()(0) < 1e-14 * es.eigenvalues()(2))
    return INFINITY;
  return std::sqrt(1 / es.eigenvalues()(0));
}
static FeatureInitializerOptions gen_opts(pbt::Tape &t) {
  FeatureInitializerOptions o;
  if (t.flip(0.5)) {
    o.min_dist = t.pick(std::vector<double>{0.1, 0.5, 0.01});
    o.max_dist = t.pick(std::vector<double>{60, 10, 200});
    o.max_cond_number = t.pick(std::vector<double>{10000, 100, 1e6});
    o.max_baseline = t.pick(std::vector<double>{40, 10, 300});
  }
  return o;
}
struct Lin {
  Vector3d p = Vector3d::Zero();
  double cond = 0, amp = 0; // condition number and error amplification
  double z = 0;
  bool ok = false; // solved
};
static Lin reference(const Scene &s, const Meas &a, bool one) {
  Lin r;
  Vector3d ba = ray(a);
  Matrix3d A = Matrix3d::Zero();
  Vector3d b = Vector3d::Zero();
  double a1 = 0, b1 = 0, da = 0;
  for (auto &m : s.m) {
    Vector3d d = ray(m);
    Matrix3d P = Matrix3d::Identity() - d * d.transpose();
    A += P;
    b += P * (m.p - a.p);
    if (&m != &a) { // depth along the anchor ray minimising the squared distances to the other rays
      a1 += (P * ba).squaredNorm();
      b1 += (P * ba).dot(m.p - a.p);
      da += (m.p - a.p).norm();
    }
  }
  if (one) {
    r.cond = 1;
    if (a1 < 1e-13)
      return r;
    r.p = a.p + ba * (b1 / a1);
    r.amp = (1 + da) / a1;
    r.ok = true;
  } else {
    Eigen::JacobiSVD<Matrix3d> svd(A);
    double lo = svd.singularValues()(2);
    r.cond = svd.singularValues()(0) / lo;
    r.amp = s.m.size() / lo;
    if (!(r.cond < 1e12))
      return r;
    r.p = a.p + A.ldlt().solve(b);
    r.ok = true;
  }
  r.z = (a.R * (r.p - a.p))(2);
  return r;
}
static Scene moved(const Scene &s, const Matrix3d &R, const Vector3d &p) {
  Scene o = s;
  for (auto &m : o.m) {
    m.R = m.R * R.transpose();
    m.p = R * m.p + p;
  }
  o.pf = R * s.pf + p;
  return o;
}

PBT_PART(linear, 400, 300000, 2000000) {
  ov_core::Printer::setPrintLevel("SILENT");
  Scene s = gen_scene(t, c, true);
  if (s.m.empty()) {
    c.label("nothing seen");
    return;
  }
  FeatureInitializerOptions o = gen_opts(t);
  FeatureInitializer fi(o);
  bool one = t.flip();
  std::shared_ptr<Feature> f;
  Clones cl;
  build(s, f, cl);
  auto uv = f->uvs_norm;
  auto tm = f->timestamps;
  bool ok = one ? fi.single_triangulation_1d(f, cl) : fi.single_triangulation(f, cl);
  REQUIRE(f->uvs_norm == uv && f->timestamps == tm, "the track was changed");
  const Meas *a = anchor(s, *f);
  Lin r = reference(s, *a, one);
  double far = (s.m[0].p).norm() + 1;
  double zt = (a->R * (s.pf - a->p))(2);
  // decision
  double margin = 1e-4 + 1e-12 * r.cond + (one && r.ok ? 1e-13 * r.amp * far / (std::fabs(r.z) + 1e-3) : 0);
  std::string w = std::to_string(s.m.size()) + " observations" + (one ? ", single depth" : ", full");
  if (!r.ok && one && s.m.size() > 1)
    c.label("undetermined depth"); // only the refinement's baseline test can tell
  else if (!r.ok || r.cond > o.max_cond_number * (1 + margin) || r.z < o.min_dist * (1 - margin) || r.z > o.max_dist * (1 + margin)) {
    REQUIRE(!ok, w << ": accepted although depth " << r.z << " condition " << r.cond << " (limits " << o.min_dist << " " << o.max_dist << " " << o.max_cond_number << ")");
    c.label("rejected");
  } else if (r.cond < o.max_cond_number * (1 - margin) && r.z > o.min_dist * (1 + margin) && r.z < o.max_dist * (1 - margin)) {
    REQUIRE(ok, w << ": refused although depth " << r.z << " condition " << r.cond << " (limits " << o.min_dist << " " << o.max_dist << " " << o.max_cond_number << ")");
    c.label("accepted");
  }
  if (s.behind)
    REQUIRE(!ok || s.noise > 0 || one, w << ": accepted a point behind the cameras, depth " << f->p_FinA(2));
  if (!ok)
    return;
  REQUIRE(f->p_FinA(2) >= o.min_dist && f->p_FinA(2) <= o.max_dist && f->p_FinG.allFinite(), "accepted at depth " << f->p_FinA(2));
  pbt::near_mat(c, Vector3d(a->R * (f->p_FinG - a->p)), f->p_FinA, 1e-12 * far + 1e-10 * f->p_FinA.norm(), "global and anchor position");
  if (r.ok && (one || r.cond < 1e8)) {
    double tol = (2e-14 * r.amp + 1e-13) * (far + std::fabs(r.z));
    if (tol < 1e-2 * r.z)
      pbt::near_mat(c, f->p_FinG, r.p, tol, one ? "single-depth least squares" : "least squares");
  }
  // exact bearings: the point itself
  double st = sigma1(s, s.pf) * 1e-7;
  if (r.ok && s.noise == 0 && !s.behind && st * r.amp < 0.05) {
    double dist = 0;
    for (auto &m : s.m)
      dist = std::max(dist, (s.pf - m.p).norm());
    double tol = (one ? 1e-6 : 4e-7) * r.amp * dist + 1e-12 * far;
    if (tol < 0.02 * zt) {
      pbt::near_mat(c, f->p_FinG, s.pf, tol, one ? "recovered point (single depth)" : "recovered point");
      c.label("recovered");
      c.nontrivial();
    }
  } else
    c.nontrivial(s.m.size() > 1);
  // another global frame
  {
    Matrix3d R = gen_rot(t);
    Vector3d p = gen_vec(t, 50);
    Scene s2 = moved(s, R, p);
    std::shared_ptr<Feature> f2;
    Clones cl2;
    build(s2, f2, cl2);
    bool ok2 = one ? fi.single_triangulation_1d(f2, cl2) : fi.single_triangulation(f2, cl2);
    bool marginal = r.cond > o.max_cond_number * (1 - margin) || r.z < o.min_dist * (1 + margin) || r.z > o.max_dist * (1 - margin) || !r.ok;
    if (!marginal && f2->anchor_cam_id == f->anchor_cam_id) {
      REQUIRE(ok2, w << ": accepted in one world frame and refused in another");
      double tol = (2e-14 * r.amp + 1e-13) * (far + 100 + std::fabs(r.z));
      if (tol < 1e-2 * r.z) {
        pbt::near_mat(c, f2->p_FinA, f->p_FinA, tol, "anchor position in another world frame");
        pbt::near_mat(c, f2->p_FinG, Vector3d(R * f->p_FinG + p), tol, "global position in another world frame");
      }
    }
  }
  // another order of the measurements of each camera (the newest stays the newest)
  {
    Scene s2 = s;
    for (size_t i = 0; i + 1 < s2.m.size(); i++) {
      size_t j = i + t.range(0, (int)(s2.m.size() - 1 - i));
      auto last = [&](size_t k) {
        for (size_t q = k + 1; q < s2.m.size(); q++)
          if (s2.m[q].cam == s2.m[k].cam)
            return false;
        return true;
      };
      if (s2.m[i].cam == s2.m[j].cam && !last(j))
        std::swap(s2.m[i], s2.m[j]);
    }
    std::shared_ptr<Feature> f2;
    Clones cl2;
    build(s2, f2, cl2);
    bool ok2 = one ? fi.single_triangulation_1d(f2, cl2) : fi.single_triangulation(f2, cl2);
    bool marginal = r.cond > o.max_cond_number * (1 - margin) || r.z < o.min_dist * (1 + margin) || r.z > o.max_dist * (1 - margin) || !r.ok;
    if (!marginal && f2->anchor_cam_id == f->anchor_cam_id) {
      REQUIRE(ok2, w << ": accepted in one order and refused in another");
      double tol = (2e-14 * r.amp + 1e-13) * (far + std::fabs(r.z));
      if (tol < 1e-2 * r.z)
        pbt::near_mat(c, f2->p_FinG, f->p_FinG, tol, "position from another order");
    }
  }
  if (c.want_sample)
    c.sample << w << ", depth " << zt << ", noise " << s.noise << ", condition " << r.cond << ", " << (ok ? "accepted" : "rejected");
}

PBT_PART(refinement, 400, 300000, 2000000) {
  ov_core::Printer::setPrintLevel("SILENT");
  Scene s = gen_scene(t, c, t.flip(0.3));
  if (s.m.size() < 2) {
    c.label("too little seen");
    return;
  }
  FeatureInitializerOptions o = gen_opts(t), wide;
  wide.min_dist = 1e-9;
  wide.max_dist = 1e9;
  wide.max_cond_number = 1e12;
  bool many = t.flip();
  if (many)
    o.max_runs = 50;
  FeatureInitializer fi(o), fw(wide);
  std::shared_ptr<Feature> f;
  Clones cl;
  build(s, f, cl);
  bool started = t.flip() ? fw.single_triangulation(f, cl) : fw.single_triangulation_1d(f, cl);
  const Meas *a = anchor(s, *f);
  double zt = (a->R * (s.pf - a->p))(2);
  double pert = 0;
  if (s.behind || !started || t.flip(0.4)) { // start from somewhere near the truth instead
    pert = t.flip(0.3) ? 0 : t.logreal(1e-3, 0.4);
    Vector3d x = a->R * (s.pf - a->p);
    f->p_FinA = x * (1 + t.sym(pert)) + x.norm() * gen_vec(t, 0.2 * pert);
  }
  if (!(std::fabs(f->p_FinA(2)) > 1e-6)) {
    c.label("no start");
    return;
  }
  Vector3d start = a->R.transpose() * f->p_FinA + a->p;
  double sl0, e0 = reproj(s, start, &sl0);
  bool ok = fi.single_gaussnewton(f, cl);
  anchor(s, *f);
  REQUIRE(!ok || f->p_FinA.allFinite(), "accepted a non-finite point");
  if (!f->p_FinA.allFinite()) {
    c.label("not finite, rejected");
    return;
  }
  Vector3d end = a->R.transpose() * f->p_FinA + a->p;
  double far = s.m[0].p.norm() + 1;
  // rounding of the position itself
  double sl1, e1 = reproj(s, end, &sl1);
  double round = 0;
  {
    double zmin = 1e9;
    for (auto &m : s.m)
      zmin = std::min({zmin, std::fabs((m.R * (end - m.p))(2)), std::fabs((m.R * (start - m.p))(2))});
    double d = 1e-14 * far / zmin * 10;
    round = s.m.size() * (d * d) + 2 * d * (std::sqrt(s.m.size() * e0) + std::sqrt(s.m.size() * e1));
  }
  std::string w = std::to_string(s.m.size()) + " observations, start off by " + std::to_string(pert) + ", noise " + std::to_string(s.noise);
  REQUIRE(e1 <= e0 * (1 + 1e-6) + sl0 + sl1 + round, w << ": squared reprojection error rose from " << e0 << " to " << e1);
  // decision at the refined point
  double bl = 0;
  Vector3d dir = f->p_FinA.normalized();
  for (auto &m : s.m) {
    Vector3d q = a->R * (m.p - a->p);
    bl = std::max(bl, (q - dir * dir.dot(q)).norm());
  }
  double ratio = f->p_FinA.norm() / bl, z = f->p_FinA(2), mg = 1e-6 + 1e-12 * far / bl;
  if (z < o.min_dist * (1 - mg) || z > o.max_dist * (1 + mg) || ratio > o.max_baseline * (1 + mg) || !(bl > 0))
    REQUIRE(!ok, w << ": accepted at depth " << z << " and baseline ratio " << ratio << " (limits " << o.min_dist << " " << o.max_dist << " " << o.max_baseline << ")");
  else if (z > o.min_dist * (1 + mg) && z < o.max_dist * (1 - mg) && ratio < o.max_baseline * (1 - mg))
    REQUIRE(ok, w << ": refused at depth " << z << " and baseline ratio " << ratio << " (limits " << o.min_dist << " " << o.max_dist << " " << o.max_baseline << ")");
  c.label(ok ? "accepted" : "rejected");
  if (ok)
    pbt::near_mat(c, f->p_FinG, end, 1e-12 * far + 1e-10 * f->p_FinA.norm(), "global and anchor position");
  // exact bearings and a reasonable start: the observed point, and accepted iff it satisfies the limits
  double s1 = sigma1(s, s.pf);
  if (!s.behind && s.noise == 0 && s1 * 1e-4 < zt && (pert <= 0.2 || !many) && pert <= 0.3) {
    double tol = (many ? 3e-6 : 3e-5) * s1 + 1e-6 * zt;
    if (many && pert <= 0.2)
      pbt::near_mat(c, end, s.pf, tol, "refined point (many iterations)");
    if (!many && pert <= 0.1 && s1 * 1e-3 < zt)
      pbt::near_mat(c, end, s.pf, tol + 1e-3 * zt * pert, "refined point (default iterations)");
    c.label(pert > 0 ? "recovered from a wrong start" : "recovered");
    c.nontrivial(pert > 0);
  }
  // noisy: a stationary point of the squared error
  if (s.noise > 0 && many && !s.behind && s.noise < 3e-3 && s1 * s.noise < 0.02 * zt && pert <= 0.2) {
    // Gauss-Newton from the result cannot gain anything
    Vector3d x = end;
    for (int k = 0; k < 20; k++) {
      Matrix3d L = Matrix3d::Zero();
      Vector3d g = Vector3d::Zero();
      for (auto &m : s.m) {
        Vector3d q = m.R * (x - m.p);
        Eigen::Matrix<double, 2, 3> H;
        H << 1 / q(2), 0, -q(0) / q(2) / q(2), 0, 1 / q(2), -q(1) / q(2) / q(2);
        H = (H * m.R).eval();
        L += H.transpose() * H;
        g += H.transpose() * (m.z - Vector2d(q(0) / q(2), q(1) / q(2)));
      }
      x += L.ldlt().solve(g);
    }
    double eo = reproj(s, x);
    if (eo <= e1) {
      double used = (e1 - eo) / (3e-5 * eo + sl1 + 1e-14);
      c.metric("frac_tol:least-squares optimum", used);
      REQUIRE(used < 1, w << ": squared error " << e1 << " although " << eo << " is reachable");
      c.label("optimum checked");
      c.nontrivial();
    }
  }
  // another world frame
  if (!s.behind && zt > 0) {
    Matrix3d R = gen_rot(t);
    Vector3d p = gen_vec(t, 50);
    Scene s2 = moved(s, R, p);
    std::shared_ptr<Feature> f2;
    Clones cl2;
    build(s2, f2, cl2);
    f2->anchor_cam_id = f->anchor_cam_id;
    f2->anchor_clone_timestamp = f->anchor_clone_timestamp;
    f2->p_FinA = a->R * (start - a->p);
    bool ok2 = fi.single_gaussnewton(f2, cl2);
    Vector3d d = f2->p_FinA - f->p_FinA;
    double tol = 1e-3 * (s.noise + 3e-4) * s1 + 1e-6 * zt;
    if (s1 * (s.noise + 1e-5) < 0.02 * zt && (many && pert < 0.2) && tol < 0.01 * zt) {
      pbt::near(c, d.norm(), 0, tol, "refined point in another world frame");
      bool marg = std::fabs(z - o.min_dist) < 2 * tol || std::fabs(z - o.max_dist) < 2 * tol || std::fabs(ratio / o.max_baseline - 1) < 0.05;
      if (!marg)
        REQUIRE(ok2 == ok, w << ": " << (ok ? "accepted" : "refused") << " in one world frame only");
    }
  }
  if (c.want_sample)
    c.sample << w << ", depth " << zt << ", " << (ok ? "accepted" : "rejected") << ", error " << e0 << " -> " << e1;
}
