// C21: whatever is delivered to the estimator, after every delivery its filter state is well formed and its memory bounded.
#include "pbt.h"
#include "feat/Feature.h"
#include "feat/FeatureDatabase.h"
#include "simkit.h"
#include "track/TrackBase.h"
#include "update/UpdaterZeroVelocity.h"

extern "C" unsigned int sleep(unsigned int) { return 0; }

using namespace ov_msckf;
using namespace sk;
typedef ov_type::LandmarkRepresentation LR;

namespace {
struct OpenManager : VioManager {
  static ov_core::FeatureDatabase &store(VioManager &m) { return *(m.*(&OpenManager::trackFEATS))->get_feature_database(); }
  static std::shared_ptr<UpdaterZeroVelocity> zupt(VioManager &m) { return m.*(&OpenManager::updaterZUPT); }
};
struct OpenPropagator : Propagator {
  static const std::vector<ov_core::ImuData> &queue(Propagator &p) { return p.*(&OpenPropagator::imu_data); }
};
struct OpenZupt : UpdaterZeroVelocity {
  static const std::vector<ov_core::ImuData> &queue(UpdaterZeroVelocity &p) { return p.*(&OpenZupt::imu_data); }
};

bool anchored(LR::Representation r) { return LR::is_relative_representation(r); }

// everything which must hold of the filter state at any moment
void well_formed(pbt::Ctx &c, const StatePtr &s, const std::set<double> &times, const std::string &when) {
  auto &o = s->_options;
  // identities of variables
  auto vars = all_variables(s);
  int at = 0;
  for (auto &v : vars) {
    REQUIRE(v->id() == at, when << ": a variable is placed at " << v->id() << " where " << at << " is next");
    at += v->size();
  }
  MatrixXd P = StateHelper::get_full_covariance(s);
  REQUIRE(P.rows() == at && P.cols() == at && s->max_covariance_size() == at, when << ": variables take " << at << " entries, the covariance has " << P.rows() << "x" << P.cols());
  // estimates
  auto sane = [&](const TypePtr &v, const std::string &n) {
    REQUIRE(v->value().allFinite() && v->fej().allFinite(), when << ": " << n << " is not finite");
    if (starts_with_quat(v)) {
      REQUIRE(std::abs(v->value().col(0).head(4).norm() - 1) < 1e-9, when << ": " << n << " has a quaternion of length " << v->value().col(0).head(4).norm());
      REQUIRE(std::abs(v->fej().col(0).head(4).norm() - 1) < 1e-9, when << ": first estimate of " << n << " has a quaternion of length " << v->fej().col(0).head(4).norm());
    }
  };
  sane(s->_imu, "imu");
  sane(s->_calib_imu_dw, "gyroscope intrinsics");
  sane(s->_calib_imu_da, "accelerometer intrinsics");
  sane(s->_calib_imu_tg, "gravity sensitivity");
  sane(s->_calib_imu_GYROtoIMU, "gyroscope rotation");
  sane(s->_calib_imu_ACCtoIMU, "accelerometer rotation");
  sane(s->_calib_dt_CAMtoIMU, "time offset");
  for (int i = 0; i < o.num_cameras; i++) {
    sane(s->_calib_IMUtoCAM.at(i), "camera pose");
    sane(s->_cam_intrinsics.at(i), "camera intrinsics");
    REQUIRE((s->_cam_intrinsics_cameras.at(i)->get_value() - s->_cam_intrinsics.at(i)->value()).cwiseAbs().maxCoeff() < 1e-9 * s->_cam_intrinsics.at(i)->value().cwiseAbs().maxCoeff(),
            when << ": the lens model of camera " << i << " does not have the estimated intrinsics");
  }
  for (auto &k : s->_clones_IMU)
    sane(k.second, "clone");
  // covariance
  REQUIRE(P.allFinite(), when << ": the covariance is not finite");
  VectorXd sd = P.diagonal().cwiseMax(1e-300).cwiseSqrt();
  REQUIRE(P.diagonal().minCoeff() >= 0, when << ": negative variance " << P.diagonal().minCoeff());
  double asym = 0;
  for (int i = 0; i < at; i++)
    for (int j = 0; j < i; j++)
      asym = std::max(asym, std::abs(P(i, j) - P(j, i)) / (sd(i) * sd(j)));
  c.metric("frac_tol:symmetry", asym / 1e-9);
  REQUIRE(asym < 1e-9, when << ": covariance is not symmetric, relative difference " << asym);
  MatrixXd C = sd.cwiseInverse().asDiagonal() * P * sd.cwiseInverse().asDiagonal();
  double low = -Eigen::SelfAdjointEigenSolver<MatrixXd>(MatrixXd(0.5 * (C + C.transpose())), Eigen::EigenvaluesOnly).eigenvalues().minCoeff();
  c.metric("frac_tol:negative eigenvalue of the correlation", low / 1e-5);
  REQUIRE(low < 1e-5, when << ": the correlation matrix has eigenvalue " << -low);
  // window
  REQUIRE((int)s->_clones_IMU.size() <= o.max_clone_size, when << ": " << s->_clones_IMU.size() << " poses in a window of " << o.max_clone_size);
  for (auto &k : s->_clones_IMU)
    REQUIRE(times.count(k.first) == 1, when << ": a pose is kept at " << k.first << " where no image was taken");
  // landmarks
  int tags = 0;
  for (auto &f : s->_features_SLAM) {
    auto &l = f.second;
    sane(l, "landmark");
    REQUIRE(l->_featid == f.first, when << ": landmark " << l->_featid << " is filed as " << f.first);
    if ((int)l->_featid <= 4 * o.max_aruco_features)
      tags++;
    REQUIRE(l->_feat_representation == o.feat_rep_slam || (int)l->_featid < o.max_aruco_features, when << ": landmark in a representation which was not asked for");
    if (anchored(l->_feat_representation)) {
      REQUIRE(s->_clones_IMU.count(l->_anchor_clone_timestamp) == 1, when << ": landmark " << l->_featid << " is anchored at " << l->_anchor_clone_timestamp << " which is not in the window");
      REQUIRE(l->_anchor_cam_id >= 0 && l->_anchor_cam_id < o.num_cameras, when << ": landmark anchored in camera " << l->_anchor_cam_id);
    }
  }
  REQUIRE((int)s->_features_SLAM.size() - tags <= o.max_slam_features, when << ": " << s->_features_SLAM.size() - tags << " landmarks, at most " << o.max_slam_features << " are allowed");
}
} // namespace

PBT_PART(histories, 120, 220, 4000) {
  ov_core::Printer::setPrintLevel(getenv("VERIF_PRINT") ? getenv("VERIF_PRINT") : "SILENT");
  sim::World w;
  int nc = t.range(1, 3);
  w.motion = sim::gen_motion(t.u32(), t.pick(std::vector<double>{1, 1, 2.5}));
  w.cams = sim::gen_cams(t.u32(), nc);
  w.seed = t.u32();
  w.shared_map = nc > 1 && t.flip();
  w.async = nc > 1 && t.flip(0.4);
  w.t0 = t.pick(std::vector<double>{10, 1403636579.763555});
  w.dur = pbt::thorough() ? 6.0 : 4.0;
  w.imu_rate = t.pick(std::vector<double>{100, 100, 200, 60});
  w.cam_rate = t.pick(std::vector<double>{10, 10, 20, 5});
  w.dt_off = t.flip(0.3) ? 0 : t.sym(0.05);
  w.num_pts = t.pick(std::vector<int>{12, 30, 5, 60});
  if (nc > 1)
    w.num_pts = std::min(w.num_pts, 30);
  w.p_drop = t.pick(std::vector<double>{0.03, 0.01, 0.2});
  w.p_outlier = t.pick(std::vector<double>{0, 0, 0.1});
  w.spix = 1;
  w.sw = 1.7e-4;
  w.sa = 2e-3;
  Rng g(t.u32());
  w.bg = g.mat(3, 1, 0.02);
  w.ba = g.mat(3, 1, 0.1);
  // stationary phases
  bool still = t.flip(0.5);
  if (still) {
    w.motion.events.push_back(t.real(0, 1.5));
    if (t.flip())
      w.motion.events.push_back(w.motion.events.back() + 0.6 + t.real(0, 1.5));
    if (w.motion.events.size() == 2 && t.flip())
      w.motion.events.push_back(w.motion.events.back() + 0.8 + t.real(0, 0.5));
  }
  w.make();

  StateOptions so;
  so.do_fej = t.flip();
  so.integration_method = t.pick(std::vector<StateOptions::IntegrationMethod>{StateOptions::RK4, StateOptions::DISCRETE, StateOptions::ANALYTICAL});
  so.max_clone_size = t.range(2, 12);
  so.do_calib_camera_timeoffset = t.flip();
  so.do_calib_camera_pose = t.flip();
  so.do_calib_camera_intrinsics = t.flip();
  so.do_calib_imu_intrinsics = t.flip(0.4);
  so.imu_model = t.flip() ? StateOptions::RPNG : StateOptions::KALIBR;
  so.do_calib_imu_g_sensitivity = so.do_calib_imu_intrinsics && t.flip();
  so.max_slam_features = t.pick(std::vector<int>{0, 10, 3, 25});
  so.max_slam_in_update = t.pick(std::vector<int>{1000, 1, 5});
  so.max_msckf_in_update = t.pick(std::vector<int>{1000, 10, 2, 0});
  so.max_aruco_features = t.pick(std::vector<int>{1024, 0, 3});
  static const std::vector<LR::Representation> reps{LR::GLOBAL_3D, LR::GLOBAL_FULL_INVERSE_DEPTH, LR::ANCHORED_3D, LR::ANCHORED_FULL_INVERSE_DEPTH, LR::ANCHORED_MSCKF_INVERSE_DEPTH, LR::ANCHORED_INVERSE_DEPTH_SINGLE};
  so.feat_rep_msckf = t.pick(reps);
  so.feat_rep_slam = t.pick(reps);
  so.feat_rep_aruco = LR::GLOBAL_3D;
  auto p = sim::options_for(w, so);
  p.dt_slam_delay = t.pick(std::vector<double>{0.3, 0, 1});
  p.try_zupt = t.flip();
  p.zupt_only_at_beginning = t.flip(0.3);
  p.zupt_max_velocity = t.pick(std::vector<double>{0.1, 1.0});
  p.zupt_noise_multiplier = t.pick(std::vector<double>{10, 1, 50});
  p.zupt_max_disparity = t.pick(std::vector<double>{2, 0, 4});
  p.zupt_options.chi2_multipler = t.pick(std::vector<double>{1, 0});
  if (t.flip(0.2))
    p.msckf_options.chi2_multipler = p.slam_options.chi2_multipler = t.pick(std::vector<double>{5, 0.01});
  if (so.do_calib_camera_timeoffset)
    p.calib_camimu_dt += t.sym(0.01);
  sim::square_noises(p);

  // what goes wrong on the way: stretches of frames dropped, emptied, thinned, repeated, delivered late, of one camera only
  struct Mishap {
    int from, len, what, cam;
  };
  std::vector<Mishap> mishaps;
  int nm = t.range(0, 5);
  for (int i = 0; i < nm; i++) {
    Mishap m;
    m.what = t.range(0, 7);
    m.from = t.range(2, (int)w.frames.size() - 1);
    m.len = t.range(1, 12);
    m.cam = t.range(0, nc - 1);
    mishaps.push_back(m);
  }
  auto po = sim::copy_options(p);
  VioManager sys(po);
  auto s = sys.get_state();
  size_t first = (size_t)t.range(0, 3);
  double tinit = w.frames[first].t;
  auto x0 = sim::init_state(w, tinit);
  for (int i = 0; i < 3; i++)
    x0(8 + i) += g.sym(0.05);
  sys.initialize_with_gt(x0);

  std::set<double> times{tinit};
  double clock = s->_timestamp, lastimu = 0, gone = -1;
  int frames = 0, zupts = 0, maxlm = 0, maxcl = 0, full = 0, stale = 0, repeats = 0;
  size_t most = 0;
  auto deliver = [&](double T, const std::vector<int> &ids, const std::vector<std::vector<std::pair<size_t, Eigen::VectorXf>>> &fe) {
    if (ids.empty())
      return;
    std::ostringstream when;
    when.precision(16);
    when << "after image " << frames << " at " << T;
    times.insert(T);
    std::map<double, int> before;
    for (auto &k : s->_clones_IMU)
      before[k.first] = 1;
    sys.feed_measurement_simulation(T, ids, fe);
    frames++;
    REQUIRE(s->_timestamp >= clock, when.str() << ": the clock went back from " << clock << " to " << s->_timestamp);
    REQUIRE(s->_timestamp == std::max(clock, T), when.str() << ": the clock is " << s->_timestamp << ", it was " << clock);
    bool advanced = T > clock;
    clock = s->_timestamp;
    well_formed(c, s, times, when.str());
    std::map<double, int> after;
    for (auto &k : s->_clones_IMU)
      after[k.first] = 1;
    bool cloned = after.count(T) > 0 && !before.count(T);
    if (advanced && !cloned) {
      zupts++;
      REQUIRE(p.try_zupt, when.str() << ": no pose was kept for the image");
      REQUIRE(after == before, when.str() << ": the window changed although the platform was taken to stand still");
    }
    if (cloned)
      REQUIRE(after.rbegin()->first == clock, when.str() << ": the newest pose of the window is at " << after.rbegin()->first);
    for (auto &b : before)
      if (!after.count(b.first)) {
        gone = std::max(gone, b.first);
        full++;
        REQUIRE(after.empty() || b.first < after.begin()->first, when.str() << ": a pose was dropped which is not the oldest");
        // nothing older than the window is kept
        double oldest = INFINITY;
        for (auto &f : OpenManager::store(sys).get_internal_data())
          for (auto &k : f.second->timestamps)
            for (double x : k.second)
              oldest = std::min(oldest, x);
        REQUIRE(oldest > b.first, when.str() << ": the track store keeps an observation at " << oldest << " although the pose at " << b.first << " was dropped");
      }
    REQUIRE((int)sys.get_features_SLAM().size() == (int)s->_features_SLAM.size(), when.str() << ": not every landmark is reported");
    // the number of image times in the store is bounded by the window and what a standstill leaves
    if (frames % 5 == 0) {
      std::set<double> in;
      for (auto &f : OpenManager::store(sys).get_internal_data())
        for (auto &k : f.second->timestamps)
          in.insert(k.second.begin(), k.second.end());
      most = std::max(most, in.size());
    }
    maxlm = std::max(maxlm, (int)s->_features_SLAM.size());
    maxcl = std::max(maxcl, (int)s->_clones_IMU.size());
  };
  bool ranaway = false;
  for (auto &e : sim::schedule(w, tinit)) {
    if (e.imu) {
      sys.feed_measurement_imu(w.imu[e.i]);
      lastimu = w.imu[e.i].timestamp;
      // the queues hold what the window may need and no more
      double need = clock + s->_calib_dt_CAMtoIMU->value()(0);
      if (!s->_clones_IMU.empty())
        need = std::min(need, s->_clones_IMU.begin()->first + std::min(0.0, s->_calib_dt_CAMtoIMU->value()(0)));
      if (!s->_clones_IMU.empty()) {
        auto &q = OpenPropagator::queue(*sys.get_propagator());
        REQUIRE(!q.empty() && q.back().timestamp == lastimu, "the newest reading is not in the queue");
        REQUIRE(q.front().timestamp > need - 0.25, "a reading " << need - q.front().timestamp << " s older than the window is kept");
      }
      continue;
    }
    auto &F = w.frames[e.i];
    if (F.t + s->_calib_dt_CAMtoIMU->value()(0) + 0.005 > lastimu)
      continue;
    auto ids = F.cams;
    auto fe = F.feats;
    bool drop = false;
    int late = 0;
    for (auto &m : mishaps) {
      if ((int)e.i < m.from || (int)e.i >= m.from + m.len)
        continue;
      if (m.what == 0)
        drop = true;
      else if (m.what == 1)
        for (auto &x : fe)
          x.clear();
      else if (m.what == 2)
        for (auto &x : fe)
          x.resize(std::min(x.size(), (size_t)3));
      else if (m.what == 3) { // one camera fails
        std::vector<int> i2;
        std::vector<std::vector<std::pair<size_t, Eigen::VectorXf>>> f2;
        for (size_t k = 0; k < ids.size(); k++)
          if (ids[k] != m.cam) {
            i2.push_back(ids[k]);
            f2.push_back(fe[k]);
          }
        ids = i2;
        fe = f2;
      } else if (m.what == 4) { // tracking is lost: every point gets another identity
        for (auto &x : fe)
          for (auto &y : x)
            y.first += 100000 * (1 + (size_t)m.from);
      } else if (m.what == 5)
        late = 1; // delivered again
      else if (m.what == 6)
        late = 2; // an older image afterwards
      else if (m.what == 7) { // nonsense observations
        for (size_t k = 0; k < fe.size(); k++)
          for (auto &y : fe[k]) {
            y.second(0) = (float)((g.sym() * 0.5 + 0.5) * (w.cams[ids[k]].w - 1));
            y.second(1) = (float)((g.sym() * 0.5 + 0.5) * (w.cams[ids[k]].h - 1));
          }
      }
    }
    if (drop)
      continue;
    // an estimate of the time offset which ran away makes images fall before the readings they need
    if (std::abs(s->_calib_dt_CAMtoIMU->value()(0) - w.dt_off) > 0.03) {
      ranaway = true;
      break;
    }
    deliver(F.t, ids, fe);
    if (late == 1) {
      deliver(F.t, ids, fe);
      repeats++;
    }
    if (late == 2 && e.i > 3 && w.frames[e.i - 3].t < clock) {
      deliver(w.frames[e.i - 3].t, w.frames[e.i - 3].cams, w.frames[e.i - 3].feats);
      stale++;
    }
  }
  // every standstill, however short, may leave two image times without a pose
  size_t limit = 4 * ((size_t)so.max_clone_size + 1) + (w.async ? 2 * nc : 0);
  c.metric("metric:image times in the store per allowed", (double)most / limit);
  REQUIRE(most <= limit, "the track store holds " << most << " image times with a window of " << so.max_clone_size);
  if (ranaway)
    c.label("offset estimate ran away");
  if (zupts)
    c.label("standstill updates");
  if (maxlm)
    c.label("landmarks " + LR::as_string(so.feat_rep_slam));
  if (stale)
    c.label("stale images");
  if (repeats)
    c.label("repeated images");
  c.label("cameras " + std::to_string(nc) + (w.async ? " asynchronous" : ""));
  for (auto &m : mishaps) {
    static const char *names[] = {"dropped", "no features", "few features", "camera fails", "tracking lost", "repeated", "stale", "nonsense"};
    c.label(std::string("mishap: ") + names[m.what]);
  }
  c.sample << frames << " images, window " << so.max_clone_size << ", up to " << maxlm << " landmarks, " << zupts << " standstill updates, " << mishaps.size() << " mishaps";
  c.nontrivial(frames > 20 && full > 3);
}
