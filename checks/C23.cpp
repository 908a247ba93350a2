// C23: an estimator is a function of its measurements: delivering the same content in another admissible way, or asking for outputs in between, gives the same estimates to the last bit.
#include "pbt.h"
#include "feat/Feature.h"
#include "feat/FeatureDatabase.h"
#include "simkit.h"
#include "track/TrackBase.h"

extern "C" unsigned int sleep(unsigned int) { return 0; }

using namespace ov_msckf;
using namespace sk;
typedef ov_type::LandmarkRepresentation LR;

namespace {
typedef std::vector<double> Print;
// everything an estimator believes
Print print_of(VioManager &sys) {
  auto s = sys.get_state();
  Print p{s->_timestamp};
  auto put = [&](const MatrixXd &m) {
    for (int j = 0; j < m.cols(); j++)
      for (int i = 0; i < m.rows(); i++)
        p.push_back(m(i, j));
  };
  for (auto &v : all_variables(s)) {
    p.push_back(v->id());
    put(v->value());
    put(v->fej());
  }
  for (auto &c : s->_clones_IMU)
    p.push_back(c.first);
  std::vector<size_t> ids;
  for (auto &f : s->_features_SLAM)
    ids.push_back(f.first);
  std::sort(ids.begin(), ids.end());
  for (auto i : ids) {
    auto &l = s->_features_SLAM.at(i);
    p.push_back((double)i);
    p.push_back(l->_anchor_cam_id);
    p.push_back(l->_anchor_clone_timestamp);
    p.push_back(l->update_fail_count);
  }
  put(StateHelper::get_full_covariance(s));
  for (auto &x : sys.get_good_features_MSCKF())
    put(x);
  for (auto &x : sys.get_features_SLAM())
    put(x);
  p.push_back(sys.initialized());
  return p;
}
bool same(const Print &a, const Print &b, std::string &how) {
  std::ostringstream os;
  os.precision(12);
  if (a.size() != b.size()) {
    os << "sizes " << a.size() << " and " << b.size();
    how = os.str();
    return false;
  }
  double worst = 0;
  size_t n = 0, at = 0;
  for (size_t i = 0; i < a.size(); i++)
    if (!(a[i] == b[i]) && !(std::isnan(a[i]) && std::isnan(b[i]))) {
      if (!n)
        at = i;
      n++;
      worst = std::max(worst, std::abs(a[i] - b[i]));
    }
  os << n << " of " << a.size() << " numbers differ, first at " << at << ", by up to " << worst;
  how = os.str();
  return n == 0;
}
enum What { AGAIN, STALE, BURSTS, QUERIES, ALL };
const char *names[] = {"again", "stale images", "bursts of readings", "queries", "stale images, bursts and queries"};

void query(VioManager &sys, Rng &g, bool images, double lastimu) {
  auto s = sys.get_state();
  int k = (int)std::floor(std::abs(g.sym(7.99)));
  if (k == 0) {
    Eigen::Matrix<double, 13, 1> y;
    Eigen::Matrix<double, 12, 12> C;
    if (s->_timestamp > 0)
      sys.get_propagator()->fast_state_propagate(s, lastimu, y, C);
  } else if (k == 1) {
    sys.get_features_SLAM();
    sys.get_features_ARUCO();
  } else if (k == 2) {
    double ts;
    std::unordered_map<size_t, Eigen::Vector3d> a, b;
    sys.get_active_tracks(ts, a, b);
    cv::Mat im;
    sys.get_active_image(ts, im);
  } else if (k == 3)
    sys.get_good_features_MSCKF();
  else if (k == 4) {
    StateHelper::get_full_covariance(s);
    StateHelper::get_marginal_covariance(s, {s->_imu});
  } else if (k == 5) {
    auto p = sys.get_params();
    sys.initialized();
    sys.initialized_time();
  } else if (k == 6) {
    if (images)
      sys.get_historical_viz_image();
  } else {
    s->margtimestep();
    s->max_covariance_size();
  }
}
} // namespace

PBT_PART(points, 100, 120, 2000) {
  ov_core::Printer::setPrintLevel(getenv("VERIF_PRINT") ? getenv("VERIF_PRINT") : "SILENT");
  sim::World w;
  int nc = t.range(1, 2);
  w.motion = sim::gen_motion(t.u32());
  w.cams = sim::gen_cams(t.u32(), nc);
  w.seed = t.u32();
  w.shared_map = nc > 1 && t.flip();
  w.async = nc > 1 && t.flip(0.4);
  w.t0 = t.pick(std::vector<double>{10, 1403636579.763555});
  w.dur = 2.5;
  w.imu_rate = t.pick(std::vector<double>{100, 200});
  w.dt_off = t.flip(0.3) ? 0 : t.sym(0.03);
  w.num_pts = t.pick(std::vector<int>{15, 30});
  w.spix = 1;
  w.sw = 1.7e-4;
  w.sa = 2e-3;
  Rng g(t.u32());
  w.bg = g.mat(3, 1, 0.02);
  w.ba = g.mat(3, 1, 0.1);
  if (t.flip(0.4)) {
    w.motion.events.push_back(t.real(0, 1.0));
    if (t.flip())
      w.motion.events.push_back(w.motion.events.back() + 0.6 + t.real(0, 0.5));
  }
  w.make();
  StateOptions so;
  so.do_fej = t.flip();
  so.integration_method = t.pick(std::vector<StateOptions::IntegrationMethod>{StateOptions::RK4, StateOptions::DISCRETE, StateOptions::ANALYTICAL});
  so.max_clone_size = t.range(4, 9);
  so.do_calib_camera_timeoffset = t.flip();
  so.do_calib_camera_pose = t.flip();
  so.do_calib_camera_intrinsics = t.flip();
  so.do_calib_imu_intrinsics = t.flip(0.4);
  so.imu_model = t.flip() ? StateOptions::RPNG : StateOptions::KALIBR;
  so.do_calib_imu_g_sensitivity = so.do_calib_imu_intrinsics && t.flip();
  so.max_slam_features = t.pick(std::vector<int>{10, 0, 25});
  so.max_slam_in_update = t.pick(std::vector<int>{1000, 5});
  so.max_msckf_in_update = t.pick(std::vector<int>{1000, 8});
  static const std::vector<LR::Representation> reps{LR::GLOBAL_3D, LR::GLOBAL_FULL_INVERSE_DEPTH, LR::ANCHORED_3D, LR::ANCHORED_FULL_INVERSE_DEPTH, LR::ANCHORED_MSCKF_INVERSE_DEPTH, LR::ANCHORED_INVERSE_DEPTH_SINGLE};
  so.feat_rep_msckf = t.pick(reps);
  so.feat_rep_slam = t.pick(reps);
  auto p = sim::options_for(w, so);
  p.dt_slam_delay = 0.3;
  p.try_zupt = t.flip();
  p.zupt_only_at_beginning = t.flip(0.3);
  p.zupt_max_velocity = 0.1;
  p.zupt_noise_multiplier = 10;
  p.zupt_max_disparity = t.pick(std::vector<double>{2, 0});
  sim::square_noises(p);
  size_t first = (size_t)t.range(0, 3);
  double tinit = w.frames[first].t;
  What what = (What)t.range(0, 4);
  Rng d(t.u32());
  auto x0 = sim::init_state(w, tinit);

  // the plain delivery, remembering which images were taken
  std::vector<std::pair<size_t, Print>> plain;
  {
    auto po = sim::copy_options(p);
    VioManager sys(po);
    auto s = sys.get_state();
    sys.initialize_with_gt(x0);
    sys.feed_measurement_simulation(tinit, w.frames[first].cams, w.frames[first].feats);
    double lastimu = 0;
    for (auto &e : sim::schedule(w, tinit)) {
      if (e.imu) {
        sys.feed_measurement_imu(w.imu[e.i]);
        lastimu = w.imu[e.i].timestamp;
        continue;
      }
      auto &F = w.frames[e.i];
      if (F.t + s->_calib_dt_CAMtoIMU->value()(0) + 0.005 > lastimu)
        continue;
      sys.feed_measurement_simulation(F.t, F.cams, F.feats);
      plain.push_back({e.i, print_of(sys)});
    }
  }
  // the other delivery
  auto po = sim::copy_options(p);
  VioManager sys(po);
  auto s = sys.get_state();
  sys.initialize_with_gt(x0);
  sys.feed_measurement_simulation(tinit, w.frames[first].cams, w.frames[first].feats);
  double lastimu = 0;
  size_t ni = 0;
  int stale = 0, queries = 0, zupts = 0;
  double ahead = 0;
  for (size_t k = 0; k < plain.size(); k++) {
    auto &F = w.frames[plain[k].first];
    // readings: what the plain delivery had by then, or many more
    double until = F.t + w.dt_off + 0.02;
    while (ni < w.imu.size() && w.imu[ni].timestamp < until) {
      sys.feed_measurement_imu(w.imu[ni++]);
      lastimu = w.imu[ni - 1].timestamp;
      if ((what == QUERIES || what == ALL) && d.sym() > 0.8) {
        query(sys, d, false, lastimu);
        queries++;
      }
    }
    if (ni < w.imu.size() && w.imu[ni].timestamp >= until) { // the reading which released the image
      sys.feed_measurement_imu(w.imu[ni++]);
      lastimu = w.imu[ni - 1].timestamp;
    }
    if ((what == BURSTS || what == ALL) && d.sym() > 0) {
      double more = std::abs(d.sym(d.sym() > 0.8 ? 10 : 0.6));
      while (ni < w.imu.size() && w.imu[ni].timestamp < until + more) {
        sys.feed_measurement_imu(w.imu[ni++]);
        lastimu = w.imu[ni - 1].timestamp;
      }
      ahead = std::max(ahead, lastimu - until);
    }
    double before = s->_timestamp;
    sys.feed_measurement_simulation(F.t, F.cams, F.feats);
    if (s->_timestamp > before && !s->_clones_IMU.count(F.t))
      zupts++;
    std::string how;
    auto me = print_of(sys);
    REQUIRE(same(plain[k].second, me, how), "delivered differently (" << names[what] << "), after image " << k << " at " << F.t - w.t0 << " s: " << how);
    if (what == QUERIES || what == ALL)
      for (int q = 0; q < 3; q++) {
        query(sys, d, false, lastimu);
        queries++;
      }
    if ((what == STALE || what == ALL) && d.sym() > 0)
      for (int q = 0; q < 2; q++) {
        size_t j = (size_t)std::floor(std::abs(d.sym((double)plain[k].first + 0.99)));
        double T = w.frames[j].t - (d.sym() > 0.5 ? 0.01 : 0);
        if (T < s->_timestamp) {
          sys.feed_measurement_simulation(T, w.frames[j].cams, w.frames[j].feats);
          stale++;
          REQUIRE(same(me, print_of(sys), how), "an image from " << s->_timestamp - T << " s before the clock changed the filter: " << how);
        }
      }
  }
  if (zupts)
    c.label("standstill updates");
  c.label(names[what]);
  c.sample << names[what] << ": " << plain.size() << " images, " << stale << " stale, " << queries << " queries, readings up to " << ahead << " s ahead";
  c.nontrivial(plain.size() > 15 && (what == AGAIN || stale > 3 || queries > 20 || ahead > 0.3));
}

// the same with pictures through the feature trackers
PBT_PART(pictures, 60, 40, 600) {
  ov_core::Printer::setPrintLevel(getenv("VERIF_PRINT") ? getenv("VERIF_PRINT") : "SILENT");
  sim::World w;
  int nc = t.range(1, 2);
  w.motion = sim::gen_motion(t.u32());
  w.cams = sim::gen_cams(t.u32(), nc);
  for (auto &cm : w.cams) {
    cm.w = 240;
    cm.h = 180;
    cm.k.head(4) << 130, 130, 120, 90;
    cm.k.tail(4).setZero();
  }
  w.shared_map = false;
  w.t0 = 10;
  w.dur = 1.6;
  w.imu_rate = 100;
  w.sw = 1.7e-4;
  w.sa = 2e-3;
  w.num_pts = 40;
  w.depth_min = 2;
  w.depth_max = 6;
  w.p_drop = 0;
  w.seed = t.u32();
  bool still = t.flip();
  if (still) 
{
    w.motion.events.push_back(1.05);
    w.dur = 2.4;
  }
  w.make();
  // pictures: a blob with its own pattern for every point
  auto render = [&](size_t f, size_t cam) {
    cv::Mat im(w.cams[cam].h, w.cams[cam].w, CV_8UC1, cv::Scalar(90));
    for (auto &o : w.frames[f].feats[cam]) {
      Rng r(o.first);
      for (int a = 0; a < 3; a++)
        for (int b = 0; b < 3; b++) {
          int x = (int)std::lround(o.second(0)) + 3 * (a - 1), y = (int)std::lround(o.second(1)) + 3 * (b - 1), v = (int)(128 + r.sym(127));
          cv::rectangle(im, cv::Rect(x - 1, y - 1, 3, 3), cv::Scalar(v), cv::FILLED);
        }
    }
    return im;
  };
  StateOptions so;
  so.max_clone_size = t.range(4, 8);
  so.do_calib_camera_pose = t.flip();
  so.max_slam_features = t.flip() ? 10 : 0;
  auto p = sim::options_for(w, so);
  p.dt_slam_delay = 0.3;
  p.use_klt = t.flip(0.7);
  p.use_stereo = nc > 1 && t.flip();
  p.use_aruco = t.flip(0.2);
  p.num_opencv_threads = t.pick(std::vector<int>{0, 4});
  p.fast_threshold = 20;
  p.grid_x = 4;
  p.grid_y = 3;
  p.min_px_dist = 8;
  p.histogram_method = t.flip() ? ov_core::TrackBase::HistogramMethod::NONE : ov_core::TrackBase::HistogramMethod::HISTOGRAM;
  p.try_zupt = t.flip(0.3);
  p.zupt_noise_multiplier = 10;
  p.init_options.init_max_features = 60;
  p.init_options.init_window_time = 0.8;
  p.init_options.init_imu_thresh = 0.3;
  p.init_options.init_dyn_use = false;
  sim::square_noises(p);
  bool own = still; // finds its own start
  What what = (What)t.range(0, 4);
  Rng d(t.u32());
  double tinit = w.frames[1].t;
  auto x0 = sim::init_state(w, tinit);
  std::vector<Print> plain;
  std::vector<ov_core::CameraData> pics;
  for (size_t f = 0; f < w.frames.size(); f++) {
    ov_core::CameraData m;
    m.timestamp = w.frames[f].t;
    for (size_t k = 0; k < w.cams.size(); k++) {
      m.sensor_ids.push_back((int)k);
      m.images.push_back(render(f, k));
      m.masks.push_back(cv::Mat::zeros(w.cams[k].h, w.cams[k].w, CV_8UC1));
    }
    pics.push_back(m);
  }
  int inits = 0, stale = 0, queries = 0, slam = 0, clones = 0;
  for (int pass = 0; pass < 2; pass++) {
    auto po = sim::copy_options(p);
    VioManager sys(po);
    auto s = sys.get_state();
    if (!own)
      sys.initialize_with_gt(x0);
    double lastimu = 0;
    size_t ni = 0;
    for (size_t f = own ? 0 : 2; f < pics.size(); f++) {
      double until = pics[f].timestamp + 0.02;
      while (ni < w.imu.size() && w.imu[ni].timestamp < until) {
        sys.feed_measurement_imu(w.imu[ni++]);
        lastimu = w.imu[ni - 1].timestamp;
      }
      if (pass == 1 && sys.initialized() && (what == BURSTS || what == ALL) && d.sym() > 0)
        while (ni < w.imu.size() && w.imu[ni].timestamp < until + 0.3)
          sys.feed_measurement_imu(w.imu[ni++]);
      if (ni)
        lastimu = w.imu[ni - 1].timestamp;
      sys.feed_measurement_camera(pics[f]);
      if (pass == 0) {
        plain.push_back(print_of(sys));
        continue;
      }
      std::string how;
      auto me = print_of(sys);
      REQUIRE(same(plain[f - (own ? 0 : 2)], me, how), "pictures delivered differently (" << names[what] << "), after picture " << f << ": " << how);
      slam = std::max(slam, (int)s->_features_SLAM.size());
      clones = std::max(clones, (int)s->_clones_IMU.size());
      inits += sys.initialized();
      if (what == QUERIES || what == ALL)
        for (int q = 0; q < 4; q++) {
          query(sys, d, true, lastimu);
          queries++;
        }
      if ((what == STALE || what == ALL) && sys.initialized() && f > 4 && d.sym() > 0) {
        size_t j = (size_t)std::floor(std::abs(d.sym((double)f - 0.01)));
        if (pics[j].timestamp < s->_timestamp) {
          sys.feed_measurement_camera(pics[j]);
          stale++;
          REQUIRE(same(me, print_of(sys), how), "a picture from before the clock changed the filter: " << how);
        }
      }
    }
  }
  c.label(p.use_klt ? "optical flow" : "descriptors");
  c.label(own ? "finds its own start" : "given start");
  if (slam)
    c.label("landmarks");
  if (inits)
    c.label("initialised");
  c.label(names[what]);
  c.sample << names[what] << ": " << pics.size() << " pictures, " << stale << " stale, " << queries << " queries, " << slam << " landmarks, " << clones << " poses";
  c.nontrivial(inits > 3 && clones > 2);
}
