// C14: the trajectory spline against a long-double reference spline, exact screw motions, numeric derivatives and rigid transforms.
#include "pbt.h"
#include "vmath.h"
#include "sim/BsplineSE3.h"
using namespace vm;
typedef Eigen::Matrix<long double, 4, 4> M4L;
typedef Eigen::Matrix<long double, 6, 1> V6L;

static M4L expSE3(const V6L &x) {
  if (x.head(3).norm() > 4) {
    M4L H = expSE3(0.5L * x);
    return H * H;
  }
  M4L T = M4L::Identity();
  V3L w = x.head(3);
  T.block(0, 0, 3, 3) = seriesL(w, 0);
  T.block(0, 3, 3, 1) = seriesL(w, 1) * x.tail(3);
  return T;
}
static M4L invSE3(const M4L &T) {
  M4L I = M4L::Identity();
  I.block(0, 0, 3, 3) = T.block(0, 0, 3, 3).transpose();
  I.block(0, 3, 3, 1) = -T.block(0, 0, 3, 3).transpose() * T.block(0, 3, 3, 1);
  return I;
}
static V6L logSE3(const M4L &T) {
  M3L R = T.block(0, 0, 3, 3);
  Eigen::Quaternion<long double> q(R);
  q.normalize();
  V3L v = q.vec();
  long double n = v.norm(), w = q.w();
  if (w < 0) {
    w = -w;
    v = -v;
  }
  V3L th = n < 1e-16L ? V3L(2.0L * v) : V3L(2.0L * std::atan2(n, w) / n * v);
  V6L x;
  x.head(3) = th;
  x.tail(3) = seriesL(th, 1).inverse() * T.block(0, 3, 3, 1);
  return x;
}
struct Pt {
  double t;
  M4L T; // R_ItoG, p
};
// uniform control poses from linear interpolation on the group
static std::vector<Pt> controls(const std::vector<Pt> &in, double dt) {
  std::vector<Pt> out;
  double tc = in.front().t;
  size_t i = 0;
  while (true) {
    while (i + 1 < in.size() && in[i + 1].t <= tc)
      i++;
    if (i + 1 >= in.size())
      break;
    long double lam = ((long double)tc - in[i].t) / ((long double)in[i + 1].t - in[i].t);
    V6L d = logSE3(in[i + 1].T * invSE3(in[i].T));
    out.push_back({tc, expSE3(lam * d) * in[i].T});
    tc += dt;
  }
  return out;
}
static std::vector<VectorXd> to_feed(const std::vector<Pt> &in) {
  std::vector<VectorXd> v;
  for (auto &p : in) {
    VectorXd x(8);
    Matrix3d R = p.T.block(0, 0, 3, 3).cast<double>();
    Vector4d q = jplq(R.transpose());
    x << p.t, p.T.block(0, 3, 3, 1).cast<double>(), q;
    v.push_back(x);
  }
  return v;
}
struct Out {
  bool ok = false;
  Matrix3d R;
  Vector3d p, w, v, al, a;
};
static Out query(ov_core::BsplineSE3 &s, double t, pbt::Ctx &c, double pscale) {
  Out o;
  o.ok = s.get_acceleration(t, o.R, o.p, o.w, o.v, o.al, o.a);
  Matrix3d R1, R2;
  Vector3d p1, p2, w2, v2;
  bool ok1 = s.get_pose(t, R1, p1), ok2 = s.get_velocity(t, R2, p2, w2, v2);
  REQUIRE(ok1 == o.ok && ok2 == o.ok, "the three query forms disagree on whether time " << t << " is supported: " << ok1 << ok2 << o.ok);
  if (o.ok) {
    pbt::near_mat(c, R1, o.R, 1e-12, "orientation of the pose query");
    pbt::near_mat(c, R2, o.R, 1e-12, "orientation of the velocity query");
    pbt::near_mat(c, p1, o.p, 1e-12 * pscale, "position of the pose query");
    pbt::near_mat(c, p2, o.p, 1e-12 * pscale, "position of the velocity query");
    pbt::near_mat(c, w2, o.w, 1e-10 * (1 + o.w.norm()), "angular velocity of the velocity query");
    pbt::near_mat(c, v2, o.v, 1e-10 * (1 + o.v.norm()), "velocity of the velocity query");
    pbt::near_mat(c, o.R * o.R.transpose(), Matrix3d::Identity(), 1e-10, "orthonormality");
    REQUIRE(o.R.determinant() > 0.5, "improper rotation");
  }
  return o;
}

struct Traj {
  std::vector<Pt> pts;
  double dt, pscale, wmax, vmax;
  bool screw;
  M4L T0;
  V6L xi;
};
static Traj gen_traj(pbt::Tape &t, pbt::Ctx &c) {
  Traj tr;
  int n = t.range(6, t.flip(0.15) ? 40 : 16);
  if (t.flip(0.07))
    n = t.range(2, 6);
  double step = t.flip(0.3) ? t.logreal(0.005, 0.05) : t.real(0.05, 1.0);
  int sk = t.range(0, 4);
  double start = sk == 0 ? 0.0 : sk == 1 ? t.real(0, 500) : sk == 2 ? 1403636579.0 + t.real(0, 100) : sk == 3 ? -t.real(0, 50) : 10.0;
  if (sk == 2)
    c.label("start:unix time");
  tr.screw = t.flip(0.35);
  bool uneven = t.flip(0.6);
  double m = t.flip(0.2) ? 500 : 20;
  tr.T0 = M4L::Identity();
  tr.T0.block(0, 0, 3, 3) = gen_rot(t).cast<long double>();
  tr.T0.block(0, 3, 3, 1) = gen_vec(t, m).cast<long double>();
  double wr = t.pick(std::vector<double>{0.0, 0.3, 1.0, 3.0}), vr = t.pick(std::vector<double>{0.0, 1.0, 5.0, 20.0});
  wr = std::min(wr, 2.5 / (3 * std::max(step, 0.05))); // no aliasing between given poses
  tr.xi << (wr * gen_dir(t)).cast<long double>(), gen_vec(t, vr).cast<long double>();
  double tc = start;
  M4L T = tr.T0;
  double wtot = 0;
  double scale_rot = std::min(1.2, 3.0 * step), still = t.flip(0.1);
  for (int i = 0; i < n; i++) {
    if (tr.screw)
      T = tr.T0 * expSE3(((long double)tc - start) * tr.xi);
    tr.pts.push_back({tc, T});
    double d = uneven ? step * t.real(1.0, 1.0 + t.real(0, 2)) : step;
    if (!tr.screw && !still) {
      V6L x;
      x << gen_vec(t, scale_rot).cast<long double>(), gen_vec(t, std::min(5.0, 10 * d)).cast<long double>();
      T = T * expSE3(x);
    }
    tc += d;
  }
  double sum = 0;
  for (int i = 0; i + 1 < n; i++)
    sum += tr.pts[i + 1].t - tr.pts[i].t;
  tr.dt = std::max(0.05, sum / (n - 1));
  // a screw with fast rotation would wrap between points
  tr.pscale = 1;
  for (auto &p : tr.pts)
    tr.pscale = std::max(tr.pscale, (double)p.T.block(0, 3, 3, 1).norm());
  (void)wtot;
  c.label(tr.screw ? "motion:screw" : still ? "motion:still" : "motion:random");
  c.label(uneven ? "spacing:uneven" : "spacing:even");
  return tr;
}

PBT_PART(spline, 700, 100000, 1200000) {
  Traj tr = gen_traj(t, c);
  auto feed = to_feed(tr.pts);
  ov_core::BsplineSE3 s;
  s.feed_trajectory(feed);
  double t0 = tr.pts.front().t;
  double teps = 1e-9 + 1e-15 * std::fabs(t0) * 50;
  pbt::near(c, s.get_start_time(), t0 + 2 * tr.dt, teps, "start time");
  std::vector<Pt> less(tr.pts.begin(), tr.pts.end() - 1);
  std::vector<Pt> cp = controls(less, tr.dt), cpm = controls(tr.pts, tr.dt);
  // largest relative rotation between control poses: the logarithm must stay in its domain
  double relmax = 0;
  for (size_t i = 0; i + 1 < tr.pts.size(); i++)
    relmax = std::max(relmax, (double)logSE3(tr.pts[i + 1].T * invSE3(tr.pts[i].T)).head(3).norm());
  for (size_t i = 0; i + 1 < cpm.size(); i++)
    relmax = std::max(relmax, (double)logSE3(invSE3(cpm[i].T) * cpm[i + 1].T).head(3).norm());
  if (relmax > 2.6) {
    c.label("rotation between points too large (only support checked)");
  }
  double lo = t0 + tr.dt;
  // a control pose exactly at the end of the data may or may not exist (rounding)
  while (cp.size() && cp.back().t > less.back().t - teps)
    cp.pop_back();
  double hi = cp.size() >= 2 ? cp[cp.size() - 2].t : -INFINITY, him = cpm.size() >= 2 ? cpm[cpm.size() - 2].t : -INFINITY;
  if (cpm.size() && cpm.back().t + tr.dt <= tr.pts.back().t + teps)
    him += tr.dt;
  int hits = 0, nq = t.range(1, 6);
  for (int k = 0; k < nq; k++) {
    double tq;
    int kind = t.range(0, 7);
    if (kind <= 3 && hi > lo)
      tq = t.real(lo, hi);
    else if (kind == 4)
      tq = t0 + t.real(-3, 1) * tr.dt;
    else if (kind == 5)
      tq = him > -1e300 ? him + t.real(-1, 3) * tr.dt : t0 + tr.dt;
    else if (kind == 6 && cp.size())
      tq = cp[t.range(0, (int)cp.size() - 1)].t; // on a knot
    else
      tq = s.get_start_time();
    Out o = query(s, tq, c, tr.pscale);
    if (tq > lo + teps && tq < hi - teps)
      REQUIRE(o.ok, "time " << tq << " lies in the supported range [" << lo << "," << hi << ") but was refused");
    if (tq < lo - teps || tq > std::max(hi, him) + teps || cpm.size() < 3)
      REQUIRE(!o.ok, "time " << tq << " lies outside the supported range [" << lo << "," << him << ") but was answered");
    if (!o.ok || relmax > 2.6) {
      c.label(o.ok ? "answered" : "refused");
      continue;
    }
    hits++;
    double ttol = 1e-15 * std::fabs(t0) * 4 + 1e-14; // rounding of the time axis
    double vs = 1 + o.v.norm() + o.a.norm(), ws = 1 + o.w.norm() + o.al.norm();
    // reference spline of the control poses
    if (cp.size() >= 4) {
      const std::vector<Pt> &C = (tq < hi - teps) ? cp : cpm;
      size_t i1 = 0;
      while (i1 + 1 < C.size() && C[i1 + 1].t <= tq)
        i1++;
      if (i1 >= 1 && i1 + 2 < C.size()) {
        long double u = ((long double)tq - C[i1].t) / ((long double)C[i1 + 1].t - C[i1].t);
        V6L d0 = logSE3(invSE3(C[i1 - 1].T) * C[i1].T), d1 = logSE3(invSE3(C[i1].T) * C[i1 + 1].T), d2 = logSE3(invSE3(C[i1 + 1].T) * C[i1 + 2].T);
        long double b0 = (5 + 3 * u - 3 * u * u + u * u * u) / 6, b1 = (1 + 3 * u + 3 * u * u - 2 * u * u * u) / 6, b2 = u * u * u / 6;
        M4L T = C[i1 - 1].T * expSE3(b0 * d0) * expSE3(b1 * d1) * expSE3(b2 * d2);
        Matrix3d Rr = T.block(0, 0, 3, 3).transpose().cast<double>();
        Vector3d pr = T.block(0, 3, 3, 1).cast<double>();
        pbt::near_mat(c, o.R, Rr, 1e-11 + 20 * ws * ttol, "orientation against the reference spline");
        pbt::near_mat(c, o.p, pr, 1e-11 * tr.pscale + 20 * (vs + ws * tr.pscale) * ttol, "position against the reference spline");
        c.nontrivial();
      }
    }
    // a constant-twist motion is reproduced exactly
    if (tr.screw) {
      M4L T = tr.T0 * expSE3(((long double)tq - t0) * tr.xi);
      Matrix3d Rr = T.block(0, 0, 3, 3).transpose().cast<double>();
      pbt::near_mat(c, o.R, Rr, 1e-11 + 20 * ws * ttol, "orientation of a constant-twist motion");
      pbt::near_mat(c, o.p, Vector3d(T.block(0, 3, 3, 1).cast<double>()), 1e-11 * tr.pscale + 20 * (vs + ws * tr.pscale) * ttol, "position of a constant-twist motion");
      Vector3d w = tr.xi.head(3).cast<double>(), rho = tr.xi.tail(3).cast<double>();
      double dterr = ttol / tr.dt; // relative error of the control spacing
      double sc = 1 + w.norm() + rho.norm();
      pbt::near_mat(c, o.w, w, 1e-8 * sc / tr.dt * 0.05 + 20 * dterr * sc, "angular velocity of a constant-twist motion");
      pbt::near_mat(c, o.v, Vector3d(Rr.transpose() * rho), 1e-8 * (sc + tr.pscale) + 40 * dterr * sc, "velocity of a constant-twist motion");
      pbt::near_mat(c, o.al, Vector3d(Vector3d::Zero()), 1e-7 * sc / tr.dt + 80 * dterr * sc / tr.dt, "angular acceleration of a constant-twist motion");
      pbt::near_mat(c, o.a, Vector3d(Rr.transpose() * w.cross(rho)), 1e-7 * (sc * sc + tr.pscale) / tr.dt + 80 * dterr * sc * (1 + w.norm()) / tr.dt,
                    "acceleration of a constant-twist motion");
    }
    // true derivatives (stencil inside one segment)
    double uu = (tq - t0) / tr.dt;
    uu -= std::floor(uu);
    bool unix_time = std::fabs(t0) > 1e6;
    double h = unix_time ? 2e-3 * std::max(1.0, tr.dt / 0.2) : 1e-3 * tr.dt;
    if (uu * tr.dt > 2.2 * h && (1 - uu) * tr.dt > 2.2 * h) {
      double tp = tq + h, tm = tq - h, tp2 = tq + 2 * h, tm2 = tq - 2 * h;
      Out a = query(s, tp, c, tr.pscale), b = query(s, tm, c, tr.pscale), a2 = query(s, tp2, c, tr.pscale), b2 = query(s, tm2, c, tr.pscale);
      if (a.ok && b.ok && a2.ok && b2.ok) {
        auto D = [&](const Vector3d &fa, const Vector3d &fb, const Vector3d &fa2, const Vector3d &fb2) -> Vector3d {
          return (4 * (fa - fb) / (tp - tm) - (fa2 - fb2) / (tp2 - tm2)) / 3;
        };
        auto W = [&](const Out &x) { return logR(o.R * x.R.transpose()); };
        double rnd = 4e-16 * 30 / h;
        double smooth = unix_time ? 5e-5 : 1e-7; // O(h^4) truncation and time rounding
        pbt::near_mat(c, o.v, D(a.p, b.p, a2.p, b2.p), smooth * vs + rnd * tr.pscale * 10, "velocity against the derivative of position");
        pbt::near_mat(c, o.w, D(W(a), W(b), W(a2), W(b2)), smooth * ws + rnd * 10, "angular velocity against the derivative of orientation");
        double vv = std::max(std::max(a.v.norm(), b.v.norm()), o.v.norm()), ww = std::max(std::max(a.w.norm(), b.w.norm()), o.w.norm());
        double vsc = 1 + (vv + ww * vv * tr.dt) / tr.dt, wsc = 1 + ww * (1 + ww) / tr.dt;
        pbt::near_mat(c, o.a, D(a.v, b.v, a2.v, b2.v), 10 * smooth * vsc + 100 * rnd * tr.pscale / tr.dt, "acceleration against the derivative of velocity");
        pbt::near_mat(c, o.al, D(a.w, b.w, a2.w, b2.w), 10 * smooth * wsc + 100 * rnd / tr.dt, "angular acceleration against the derivative of angular velocity");
        c.label("derivatives checked");
      }
    } else if (uu < 1e-9 || uu > 1 - 1e-9) { // continuity of all derivatives across a knot
      double e = unix_time ? 2e-6 : 1e-7 * tr.dt;
      Out a = query(s, tq + e, c, tr.pscale), b = query(s, tq - e, c, tr.pscale);
      if (a.ok && b.ok) {
        double k2 = e / tr.dt * 60 + 20 * ttol / tr.dt;
        double vsc = vs + a.v.norm() + b.v.norm() + tr.dt * (a.a.norm() + b.a.norm()), wsc = ws + a.w.norm() + b.w.norm() + tr.dt * (a.al.norm() + b.al.norm());
        pbt::near_mat(c, a.p, b.p, k2 * tr.dt * vsc + 1e-12 * tr.pscale, "position across a knot");
        pbt::near_mat(c, a.v, b.v, k2 * vsc * (1 + wsc) + 1e-9 * tr.pscale, "velocity across a knot");
        pbt::near_mat(c, a.w, b.w, k2 * wsc * (1 + wsc) + 1e-9, "angular velocity across a knot");
        double asc = (vsc / tr.dt) * (1 + wsc * wsc * tr.dt), alsc = wsc / tr.dt * (1 + wsc * wsc * tr.dt);
        pbt::near_mat(c, a.a, b.a, k2 * asc + 1e-8 * tr.pscale / tr.dt / tr.dt, "acceleration across a knot");
        pbt::near_mat(c, a.al, b.al, k2 * alsc + 1e-8 / tr.dt / tr.dt, "angular acceleration across a knot");
        c.label("knot checked");
      }
    }
  }
  // the same experiment described in another global frame and with another time origin
  if (relmax <= 2.6 && hits && t.flip(0.3)) {
    M4L G = M4L::Identity();
    G.block(0, 0, 3, 3) = gen_rot(t).cast<long double>();
    G.block(0, 3, 3, 1) = gen_vec(t, 50).cast<long double>();
    double shift = std::fabs(t0) > 1e6 ? 0 : 0.25 * t.range(0, 400);
    std::vector<Pt> moved = tr.pts;
    for (auto &p : moved) {
      p.T = G * p.T;
      p.t += shift;
    }
    ov_core::BsplineSE3 s2;
    s2.feed_trajectory(to_feed(moved));
    double tq = t.real(lo + 1e-6, std::max(lo + 2e-6, hi - 1e-6));
    Out a = query(s, tq, c, tr.pscale), b = query(s2, tq + shift, c, tr.pscale + 100);
    if (tq > lo + 1e-6 && tq < hi - 1e-6) {
      REQUIRE(a.ok && b.ok, "support of a moved trajectory");
      Matrix3d RG = G.block(0, 0, 3, 3).cast<double>();
      Vector3d pG = G.block(0, 3, 3, 1).cast<double>();
      double ps = 1e-9 * (tr.pscale + 100), idt = 1 / tr.dt;
      double tt = (shift != 0) ? 4e-13 : 0;
      double vs = 1 + a.v.norm() + a.a.norm() * (1 + idt), ws = 1 + a.w.norm() + a.al.norm() * (1 + idt);
      pbt::near_mat(c, b.R, Matrix3d(a.R * RG.transpose()), 1e-9 + tt * ws, "orientation in a moved frame");
      pbt::near_mat(c, b.p, Vector3d(RG * a.p + pG), ps + tt * vs, "position in a moved frame");
      pbt::near_mat(c, b.w, a.w, 1e-8 * (1 + idt) + 20 * tt * idt * ws, "angular velocity in a moved frame");
      pbt::near_mat(c, b.v, Vector3d(RG * a.v), ps * (1 + idt) + 20 * tt * idt * vs, "velocity in a moved frame");
      pbt::near_mat(c, b.al, a.al, 1e-8 * (1 + idt) * (1 + idt) * ws + 100 * tt * idt * idt * ws, "angular acceleration in a moved frame");
      pbt::near_mat(c, b.a, Vector3d(RG * a.a), ps * (1 + idt) * (1 + idt) + 100 * tt * idt * idt * vs, "acceleration in a moved frame");
      c.label("moved frame checked");
    }
  }
  if (c.want_sample)
    c.sample << tr.pts.size() << " poses from t=" << t0 << ", spacing " << tr.dt << " s, " << nq << " queries, " << hits << " answered, largest step rotation " << relmax
             << " rad";
}
