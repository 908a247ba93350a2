// C08: state variable types - corrections, copies, sub-variables, landmark parameterisations - against a model.
#include "pbt.h"
#include "vmath.h"
#include "types/IMU.h"
#include "types/JPLQuat.h"
#include "types/Landmark.h"
#include "types/PoseJPL.h"
#include "types/Vec.h"
#include <memory>
using namespace vm;
using namespace ov_type;

static Vector4d gen_q(pbt::Tape &t, pbt::Ctx &c) {
  Vector3d w = gen_rotvec(t, &c);
  double th = w.norm();
  Vector3d k = th > 0 ? Vector3d(w / th) : Vector3d::UnitX();
  Vector4d q;
  q << std::sin(th / 2) * k, std::cos(th / 2);
  return q.normalized();
}
// the documented correction: dq = [dtheta/2; 1] normalised, applied on the left
static Matrix3d corr_R(const Vector3d &d) {
  Vector4d q;
  q << 0.5 * d, 1.0;
  return jplR(q / q.norm());
}
static double gen_mag(pbt::Tape &t) { return t.flip(0.3) ? t.logreal(1e-10, 1e-3) : t.real(0, 1.0); }

// ---- model of a composed variable: list of parts, each a quaternion or a vector
struct PartM {
  bool quat;
  int dim; // error dimension
  VectorXd val, fej;
};
struct VarM {
  std::vector<PartM> parts;
  VectorXd value(bool fej) const {
    int n = 0;
    for (auto &p : parts)
      n += (int)p.val.size();
    VectorXd v(n);
    int o = 0;
    for (auto &p : parts) {
      v.segment(o, p.val.size()) = fej ? p.fej : p.val;
      o += (int)p.val.size();
    }
    return v;
  }
};

static VectorXd gen_value(pbt::Tape &t, pbt::Ctx &c, const VarM &m) {
  int n = 0;
  for (auto &p : m.parts)
    n += p.quat ? 4 : p.dim;
  VectorXd v(n);
  int o = 0;
  for (auto &p : m.parts) {
    if (p.quat) {
      v.segment(o, 4) = gen_q(t, c);
      o += 4;
    } else {
      for (int i = 0; i < p.dim; i++)
        v(o + i) = t.sym(30);
      o += p.dim;
    }
  }
  return v;
}

static void check_var(pbt::Ctx &c, const std::shared_ptr<Type> &x, const VarM &m, const std::string &when) {
  VectorXd v = x->value(), f = x->fej();
  VectorXd mv = m.value(false), mf = m.value(true);
  REQUIRE(v.size() == mv.size() && f.size() == mf.size(), "value size " << when);
  int o = 0;
  int e = 0;
  for (auto &p : m.parts) {
    int n = p.quat ? 4 : p.dim;
    if (p.quat) {
      pbt::near(c, v.segment(o, 4).norm(), 1.0, 1e-9, "unit quaternion#" + when);
      pbt::near_mat(c, jplR(v.segment(o, 4)), jplR(mv.segment(o, 4)), 1e-9, "orientation#" + when);
      pbt::near_mat(c, jplR(f.segment(o, 4)), jplR(mf.segment(o, 4)), 1e-12, "first-estimate orientation#" + when);
    } else {
      pbt::near_mat(c, VectorXd(v.segment(o, n)), VectorXd(mv.segment(o, n)), 1e-9, "value#" + when);
      pbt::near_mat(c, VectorXd(f.segment(o, n)), VectorXd(mf.segment(o, n)), 1e-12, "first estimate#" + when);
    }
    o += n;
    e += p.dim;
  }
  REQUIRE(x->size() == e, "error dimension " << x->size() << " expected " << e << " " << when);
}
static void check_quat_part(pbt::Ctx &c, const std::shared_ptr<JPLQuat> &q, const PartM &p, const std::string &w) {
  pbt::near_mat(c, q->Rot(), jplR(p.val), 1e-9, "cached rotation#" + w);
  pbt::near_mat(c, q->Rot_fej(), jplR(p.fej), 1e-9, "cached first-estimate rotation#" + w);
  pbt::near_mat(c, jplR(Vector4d(q->value())), jplR(p.val), 1e-9, "sub quaternion#" + w);
  pbt::near_mat(c, jplR(Vector4d(q->fej())), jplR(p.fej), 1e-9, "sub quaternion first estimate#" + w);
}
static void check_vec_part(pbt::Ctx &c, const std::shared_ptr<Type> &v, const PartM &p, const std::string &w) {
  pbt::near_mat(c, v->value(), MatrixXd(p.val), 1e-9, "sub vector#" + w);
  pbt::near_mat(c, v->fej(), MatrixXd(p.fej), 1e-9, "sub vector first estimate#" + w);
}

// check every view of a composed variable
static void check_all(pbt::Ctx &c, const std::shared_ptr<Type> &x, const VarM &m, int id, const std::string &w) {
  check_var(c, x, m, w);
  REQUIRE(x->id() == id, "index " << x->id() << " expected " << id << " " << w);
  auto at = [&](int off) { return id == -1 ? -1 : id + off; };
  if (auto imu = std::dynamic_pointer_cast<IMU>(x)) {
    check_quat_part(c, imu->q(), m.parts[0], w);
    check_vec_part(c, imu->p(), m.parts[1], w);
    check_vec_part(c, imu->v(), m.parts[2], w);
    check_vec_part(c, imu->bg(), m.parts[3], w);
    check_vec_part(c, imu->ba(), m.parts[4], w);
    pbt::near_mat(c, imu->Rot(), jplR(m.parts[0].val), 1e-9, "imu Rot#" + w);
    pbt::near_mat(c, imu->Rot_fej(), jplR(m.parts[0].fej), 1e-9, "imu Rot fej#" + w);
    pbt::near_mat(c, jplR(imu->quat()), jplR(m.parts[0].val), 1e-9, "imu quat#" + w);
    pbt::near_mat(c, jplR(imu->quat_fej()), jplR(m.parts[0].fej), 1e-9, "imu quat fej#" + w);
    pbt::near_mat(c, imu->pos(), m.parts[1].val, 1e-9, "imu pos#" + w);
    pbt::near_mat(c, imu->pos_fej(), m.parts[1].fej, 1e-9, "imu pos fej#" + w);
    pbt::near_mat(c, imu->vel(), m.parts[2].val, 1e-9, "imu vel#" + w);
    pbt::near_mat(c, imu->vel_fej(), m.parts[2].fej, 1e-9, "imu vel fej#" + w);
    pbt::near_mat(c, imu->bias_g(), m.parts[3].val, 1e-9, "imu gyro bias#" + w);
    pbt::near_mat(c, imu->bias_g_fej(), m.parts[3].fej, 1e-9, "imu gyro bias fej#" + w);
    pbt::near_mat(c, imu->bias_a(), m.parts[4].val, 1e-9, "imu accel bias#" + w);
    pbt::near_mat(c, imu->bias_a_fej(), m.parts[4].fej, 1e-9, "imu accel bias fej#" + w);
    REQUIRE(imu->pose()->id() == at(0) && imu->q()->id() == at(0) && imu->p()->id() == at(3) && imu->v()->id() == at(6) &&
                imu->bg()->id() == at(9) && imu->ba()->id() == at(12),
            "indices of the inertial parts " << w);
    REQUIRE(imu->pose()->size() == 6 && imu->q()->size() == 3 && imu->p()->size() == 3 && imu->v()->size() == 3 && imu->bg()->size() == 3 &&
                imu->ba()->size() == 3,
            "sizes of the inertial parts " << w);
    std::vector<std::shared_ptr<Type>> subs = {imu->pose(), imu->q(), imu->p(), imu->v(), imu->bg(), imu->ba()};
    for (auto &s : subs)
      REQUIRE(imu->check_if_subvariable(s) == s, "part of the inertial state is not recognised " << w);
    REQUIRE(imu->check_if_subvariable(std::make_shared<Vec>(3)) == nullptr, "foreign variable recognised as a part " << w);
    VarM pm;
    pm.parts = {m.parts[0], m.parts[1]};
    check_var(c, imu->pose(), pm, w + " (pose part)");
  } else if (auto pose = std::dynamic_pointer_cast<PoseJPL>(x)) {
    check_quat_part(c, pose->q(), m.parts[0], w);
    check_vec_part(c, pose->p(), m.parts[1], w);
    pbt::near_mat(c, pose->Rot(), jplR(m.parts[0].val), 1e-9, "pose Rot#" + w);
    pbt::near_mat(c, pose->Rot_fej(), jplR(m.parts[0].fej), 1e-9, "pose Rot fej#" + w);
    pbt::near_mat(c, jplR(pose->quat()), jplR(m.parts[0].val), 1e-9, "pose quat#" + w);
    pbt::near_mat(c, jplR(pose->quat_fej()), jplR(m.parts[0].fej), 1e-9, "pose quat fej#" + w);
    pbt::near_mat(c, pose->pos(), m.parts[1].val, 1e-9, "pose pos#" + w);
    pbt::near_mat(c, pose->pos_fej(), m.parts[1].fej, 1e-9, "pose pos fej#" + w);
    REQUIRE(pose->q()->id() == at(0) && pose->p()->id() == at(3), "indices of the pose parts " << w);
    REQUIRE(pose->check_if_subvariable(pose->q()) == pose->q() && pose->check_if_subvariable(pose->p()) == pose->p(),
            "part of the pose is not recognised " << w);
    REQUIRE(pose->check_if_subvariable(std::make_shared<JPLQuat>()) == nullptr, "foreign variable recognised as a part " << w);
  } else if (auto q = std::dynamic_pointer_cast<JPLQuat>(x)) {
    check_quat_part(c, q, m.parts[0], w);
  }
}

PBT_PART(histories, 1500, 60000, 800000) {
  struct Obj {
    std::shared_ptr<Type> x;
    VarM m;
    int id;
  };
  std::vector<Obj> objs;
  auto fresh = [&](int kind, int dim) {
    Obj o;
    o.id = -1;
    auto quat = [&]() {
      PartM p;
      p.quat = true;
      p.dim = 3;
      p.val = p.fej = Vector4d(0, 0, 0, 1);
      return p;
    };
    auto vec = [&](int d) {
      PartM p;
      p.quat = false;
      p.dim = d;
      p.val = p.fej = VectorXd::Zero(d);
      return p;
    };
    if (kind == 0) {
      o.x = std::make_shared<Vec>(dim);
      o.m.parts = {vec(dim)};
    } else if (kind == 1) {
      o.x = std::make_shared<JPLQuat>();
      o.m.parts = {quat()};
    } else if (kind == 2) {
      o.x = std::make_shared<PoseJPL>();
      o.m.parts = {quat(), vec(3)};
    } else {
      o.x = std::make_shared<IMU>();
      o.m.parts = {quat(), vec(3), vec(3), vec(3), vec(3)};
    }
    return o;
  };
  int n0 = t.range(1, 3);
  for (int i = 0; i < n0; i++)
    objs.push_back(fresh(3 - t.range(0, 3), t.range(1, 8)));
  int ops = t.range(1, 40);
  bool updated_after_clone = false, cloned = false;
  for (int k = 0; k < ops; k++) {
    size_t i = (size_t)t.range(0, (int)objs.size() - 1);
    Obj &o = objs[i];
    std::string w;
    switch (t.range(0, 5)) {
    case 0: { // correction
      VectorXd dx(o.x->size());
      double mag = gen_mag(t);
      int e = 0;
      for (auto &p : o.m.parts) {
        for (int a = 0; a < p.dim; a++)
          dx(e + a) = t.sym(mag);
        if (p.quat) {
          Matrix3d R = corr_R(dx.segment(e, 3)) * jplR(p.val);
          p.val = jplq(R);
        } else
          p.val += dx.segment(e, p.dim);
        e += p.dim;
      }
      o.x->update(dx);
      w = "after correction";
      updated_after_clone = updated_after_clone || cloned;
      c.label("op:update");
      break;
    }
    case 1: {
      VectorXd v = gen_value(t, c, o.m);
      o.x->set_value(v);
      int off = 0;
      for (auto &p : o.m.parts) {
        p.val = v.segment(off, p.quat ? 4 : p.dim);
        off += (int)p.val.size();
      }
      w = "after set";
      c.label("op:set");
      break;
    }
    case 2: {
      VectorXd v = gen_value(t, c, o.m);
      o.x->set_fej(v);
      int off = 0;
      for (auto &p : o.m.parts) {
        p.fej = v.segment(off, p.quat ? 4 : p.dim);
        off += (int)p.fej.size();
      }
      w = "after set first estimate";
      c.label("op:set_fej");
      break;
    }
    case 3: {
      o.id = t.flip(0.2) ? -1 : t.range(0, 200);
      o.x->set_local_id(o.id);
      w = "after index";
      c.label("op:index");
      break;
    }
    case 4: { // copy
      if (objs.size() < 8) {
        Obj n = o;
        n.x = o.x->clone();
        REQUIRE(n.x && n.x != o.x, "clone is the same object");
        REQUIRE(n.x->id() == -1, "a clone is born with an index of the state: " << n.x->id());
        n.id = -1;
        objs.push_back(n);
        cloned = true;
        c.label("op:clone");
      }
      w = "after clone";
      break;
    }
    case 5: { // clone of a sub-variable
      std::shared_ptr<Type> s;
      VarM sm;
      if (auto imu = std::dynamic_pointer_cast<IMU>(o.x)) {
        int which = t.range(0, 5);
        if (which == 0) {
          s = imu->pose()->clone();
          sm.parts = {o.m.parts[0], o.m.parts[1]};
          REQUIRE(std::dynamic_pointer_cast<PoseJPL>(s), "clone of the pose part is not a pose");
        } else {
          std::shared_ptr<Type> sub = which == 1 ? std::shared_ptr<Type>(imu->q())
                                      : which == 2 ? std::shared_ptr<Type>(imu->p())
                                      : which == 3 ? std::shared_ptr<Type>(imu->v())
                                      : which == 4 ? std::shared_ptr<Type>(imu->bg())
                                                   : std::shared_ptr<Type>(imu->ba());
          s = sub->clone();
          sm.parts = {o.m.parts[(size_t)which - 1]};
        }
      } else if (auto pose = std::dynamic_pointer_cast<PoseJPL>(o.x)) {
        bool q = t.flip();
        s = q ? pose->q()->clone() : pose->p()->clone();
        sm.parts = {o.m.parts[q ? 0 : 1]};
      }
      if (s && objs.size() < 8) {
        Obj n;
        n.x = s;
        n.m = sm;
        n.id = -1;
        objs.push_back(n);
        cloned = true;
        c.label("op:clone-part");
      }
      w = "after part clone";
      break;
    }
    }
    // every object, so that nothing leaks from one to another
    for (size_t j = 0; j < objs.size(); j++)
      check_all(c, objs[j].x, objs[j].m, objs[j].id, w + (j == i ? "" : " (other object)"));
  }
  c.nontrivial(updated_after_clone);
  if (c.want_sample)
    c.sample << n0 << " variables, " << ops << " operations, " << objs.size() << " objects at the end";
}

PBT_PART(correction_is_left_error, 64, 600000, 6000000) {
  // to first order the corrected rotation is (I - [d x]) R, to all orders it stays orthonormal
  JPLQuat q;
  Vector4d q0 = gen_q(t, c);
  q.set_value(q0);
  double mag = t.logreal(1e-9, 1e-4);
  Vector3d d = mag * gen_dir(t);
  q.update(d);
  pbt::near_mat(c, q.Rot(), Matrix3d((Matrix3d::Identity() - skew(d)) * jplR(q0)), 1e-15 + 2 * mag * mag + 1e-12, "small correction");
  pbt::near_mat(c, Matrix3d(q.Rot() * q.Rot().transpose()), Matrix3d(Matrix3d::Identity()), 1e-12, "orthonormal");
  c.nontrivial();
  if (c.want_sample)
    c.sample << "q=" << str(q0) << " d=" << str(d);
}

PBT_PART(landmarks, 128, 600000, 6000000) {
  static const std::vector<LandmarkRepresentation::Representation> reps = {
      LandmarkRepresentation::GLOBAL_3D,   LandmarkRepresentation::GLOBAL_FULL_INVERSE_DEPTH,    LandmarkRepresentation::ANCHORED_3D,
      LandmarkRepresentation::ANCHORED_FULL_INVERSE_DEPTH, LandmarkRepresentation::ANCHORED_MSCKF_INVERSE_DEPTH,
      LandmarkRepresentation::ANCHORED_INVERSE_DEPTH_SINGLE};
  auto rep = t.pick(reps);
  bool rel = LandmarkRepresentation::is_relative_representation(rep);
  bool single = rep == LandmarkRepresentation::ANCHORED_INVERSE_DEPTH_SINGLE;
  REQUIRE(rel == (rep != LandmarkRepresentation::GLOBAL_3D && rep != LandmarkRepresentation::GLOBAL_FULL_INVERSE_DEPTH), "relative flag");
  REQUIRE(LandmarkRepresentation::from_string(LandmarkRepresentation::as_string(rep)) == rep, "name round trip");
  REQUIRE(LandmarkRepresentation::as_string(LandmarkRepresentation::UNKNOWN) == "UNKNOWN" &&
              LandmarkRepresentation::from_string("nonsense") == LandmarkRepresentation::UNKNOWN,
          "unknown representation");
  Landmark l(single ? 1 : 3);
  l._feat_representation = rep;
  auto gen_p = [&]() {
    Vector3d p;
    double dist = t.logreal(0.3, 100);
    if (rel) { // in front of the anchor camera
      Vector3d b(t.sym(1.2), t.sym(1.2), 1.0);
      p = dist * b;
    } else {
      p = dist * gen_dir(t);
    }
    return p;
  };
  Vector3d pv = gen_p(), pf = gen_p();
  int ops = t.range(2, 8);
  bool hasv = false, hasf = false;
  for (int k = 0; k < ops; k++) {
    if (k == 0 || (k > 1 && t.flip())) {
      if (k)
        pv = gen_p();
      l.set_from_xyz(pv, false);
      hasv = true;
    } else {
      if (k > 1)
        pf = gen_p();
      l.set_from_xyz(pf, true);
      hasf = true;
    }
    if (hasv)
      pbt::near_mat(c, l.get_xyz(false), pv, 6e-8 * pv.norm() + 1e-9, "landmark position round trip");
    if (hasf)
      pbt::near_mat(c, l.get_xyz(true), pf, 6e-8 * pf.norm() + 1e-9, "landmark first-estimate round trip");
  }
  // parameterisation conventions
  VectorXd v = l.value();
  double n = pv.norm();
  switch (rep) {
  case LandmarkRepresentation::GLOBAL_3D:
  case LandmarkRepresentation::ANCHORED_3D:
    pbt::near_mat(c, v, VectorXd(pv), 1e-12 * n, "cartesian parameters");
    break;
  case LandmarkRepresentation::GLOBAL_FULL_INVERSE_DEPTH:
  case LandmarkRepresentation::ANCHORED_FULL_INVERSE_DEPTH:
    pbt::near(c, v(2), 1 / n, 1e-9 / n, "inverse distance parameter");
    break;
  case LandmarkRepresentation::ANCHORED_MSCKF_INVERSE_DEPTH:
    pbt::near_mat(c, v, VectorXd(Vector3d(pv(0) / pv(2), pv(1) / pv(2), 1 / pv(2))), 1e-9, "inverse depth parameters");
    break;
  default:
    pbt::near(c, v(0), 1 / pv(2), 1e-9, "single inverse depth parameter");
    break;
  }
  // a correction changes the value only
  VectorXd f0 = l.fej();
  Vector3d pf0 = l.get_xyz(true);
  VectorXd d(l.size());
  for (int i = 0; i < d.size(); i++)
    d(i) = t.sym(1e-3);
  l.update(d);
  pbt::near_mat(c, l.value(), MatrixXd(v + d), 1e-12 * (1 + v.norm()), "corrected landmark parameters");
  pbt::near_mat(c, l.fej(), MatrixXd(f0), 1e-300, "first estimate after correction");
  if (hasf)
    pbt::near_mat(c, l.get_xyz(true), pf0, 1e-12 * (1 + pf0.norm()), "first-estimate position after correction");
  c.label(LandmarkRepresentation::as_string(rep));
  c.nontrivial();
  if (c.want_sample)
    c.sample << LandmarkRepresentation::as_string(rep) << " p=" << str(pv) << " first=" << str(pf);
}
