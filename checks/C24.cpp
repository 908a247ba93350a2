// C24: option files.
#include "forkrun.h"
#include "pbt.h"
#include "statekit.h"
#include "core/VioManagerOptions.h"
#include "utils/opencv_yaml_parse.h"
#include <fstream>
#include <opencv2/opencv.hpp>
#include <sys/stat.h>
#include <unistd.h>
using namespace vm;
using ov_msckf::StateOptions;
using ov_msckf::VioManagerOptions;
typedef VioManagerOptions O;

namespace {
struct Opt {
  std::string name, type; // b i d s v (three numbers)
  bool required;
  std::vector<std::string> words; // of enumerations
  double lo, hi, dflt;
  std::string dstr;
  std::vector<std::function<double(const O &)>> num;
  std::function<std::string(const O &)> str;
};
#define N(expr) [](const O &o) -> double { return (double)(o.expr); }
std::vector<Opt> table() {
  std::vector<Opt> t;
  auto B = [&](const char *n, bool d, std::vector<std::function<double(const O &)>> f, bool req = true) { t.push_back({n, "b", req, {}, 0, 1, (double)d, "", f, nullptr}); };
  auto I = [&](const char *n, int d, int lo, int hi, std::vector<std::function<double(const O &)>> f, bool req = true) {
    t.push_back({n, "i", req, {}, (double)lo, (double)hi, (double)d, "", f, nullptr});
  };
  auto D = [&](const char *n, double d, double lo, double hi, std::vector<std::function<double(const O &)>> f, bool req = true) { t.push_back({n, "d", req, {}, lo, hi, d, "", f, nullptr}); };
  auto S = [&](const char *n, std::vector<std::string> w, std::string d, std::function<std::string(const O &)> f) { t.push_back({n, "s", true, w, 0, 0, 0, d, {}, f}); };
  B("use_fej", true, {N(state_options.do_fej)});
  S("integration", {"rk4", "discrete", "analytical"}, "rk4", [](const O &o) {
    auto m = o.state_options.integration_method;
    return std::string(m == StateOptions::RK4 ? "rk4" : m == StateOptions::DISCRETE ? "discrete" : "analytical");
  });
  B("use_stereo", true, {N(use_stereo), N(init_options.use_stereo)});
  I("max_cameras", 1, 1, 3, {N(state_options.num_cameras), N(init_options.num_cameras)});
  B("calib_cam_extrinsics", false, {N(state_options.do_calib_camera_pose)});
  B("calib_cam_intrinsics", false, {N(state_options.do_calib_camera_intrinsics)});
  B("calib_cam_timeoffset", false, {N(state_options.do_calib_camera_timeoffset)});
  B("calib_imu_intrinsics", false, {N(state_options.do_calib_imu_intrinsics)});
  B("calib_imu_g_sensitivity", false, {N(state_options.do_calib_imu_g_sensitivity)});
  I("max_clones", 11, 1, 50, {N(state_options.max_clone_size)});
  I("max_slam", 25, 0, 200, {N(state_options.max_slam_features)});
  I("max_slam_in_update", 1000, 0, 2000, {N(state_options.max_slam_in_update)});
  I("max_msckf_in_update", 1000, 0, 2000, {N(state_options.max_msckf_in_update)});
  I("num_aruco", 1024, 0, 2000, {N(state_options.max_aruco_features)});
  std::vector<std::string> reps{"GLOBAL_3D", "GLOBAL_FULL_INVERSE_DEPTH", "ANCHORED_3D", "ANCHORED_FULL_INVERSE_DEPTH", "ANCHORED_MSCKF_INVERSE_DEPTH", "ANCHORED_INVERSE_DEPTH_SINGLE"};
  auto rep = [](ov_type::LandmarkRepresentation::Representation r) {
    typedef ov_type::LandmarkRepresentation::Representation R;
    switch (r) {
    case R::GLOBAL_3D:
      return std::string("GLOBAL_3D");
    case R::GLOBAL_FULL_INVERSE_DEPTH:
      return std::string("GLOBAL_FULL_INVERSE_DEPTH");
    case R::ANCHORED_3D:
      return std::string("ANCHORED_3D");
    case R::ANCHORED_FULL_INVERSE_DEPTH:
      return std::string("ANCHORED_FULL_INVERSE_DEPTH");
    case R::ANCHORED_MSCKF_INVERSE_DEPTH:
      return std::string("ANCHORED_MSCKF_INVERSE_DEPTH");
    case R::ANCHORED_INVERSE_DEPTH_SINGLE:
      return std::string("ANCHORED_INVERSE_DEPTH_SINGLE");
    default:
      return std::string("none");
    }
  };
  S("feat_rep_msckf", reps, "GLOBAL_3D", [rep](const O &o) { return rep(o.state_options.feat_rep_msckf); });
  S("feat_rep_slam", reps, "GLOBAL_3D", [rep](const O &o) { return rep(o.state_options.feat_rep_slam); });
  S("feat_rep_aruco", reps, "GLOBAL_3D", [rep](const O &o) { return rep(o.state_options.feat_rep_aruco); });
  D("dt_slam_delay", 2, 0, 10, {N(dt_slam_delay)});
  B("try_zupt", false, {N(try_zupt)});
  D("zupt_chi2_multipler", 5, 0, 5, {N(zupt_options.chi2_multipler)});
  D("zupt_max_velocity", 1, 0, 3, {N(zupt_max_velocity)});
  D("zupt_noise_multiplier", 1, 0, 50, {N(zupt_noise_multiplier)});
  D("zupt_max_disparity", 1, 0, 5, {N(zupt_max_disparity)});
  B("zupt_only_at_beginning", false, {N(zupt_only_at_beginning)});
  B("record_timing_information", false, {N(record_timing_information)});
  S("record_timing_filepath", {"/tmp/a_timing.txt", "b.txt", "/x/y z.csv"}, "ov_msckf_timing.txt", [](const O &o) { return o.record_timing_filepath; });
  D("init_window_time", 1, 0.1, 5, {N(init_options.init_window_time)});
  D("init_imu_thresh", 1, 0.01, 5, {N(init_options.init_imu_thresh)});
  D("init_max_disparity", 1, 0.01, 20, {N(init_options.init_max_disparity)});
  I("init_max_features", 50, 15, 300, {N(init_options.init_max_features)});
  B("init_dyn_use", false, {N(init_options.init_dyn_use)});
  B("init_dyn_mle_opt_calib", false, {N(init_options.init_dyn_mle_opt_calib)});
  I("init_dyn_mle_max_iter", 20, 0, 100, {N(init_options.init_dyn_mle_max_iter)});
  I("init_dyn_mle_max_threads", 20, 1, 40, {N(init_options.init_dyn_mle_max_threads)});
  D("init_dyn_mle_max_time", 5, 0.01, 9, {N(init_options.init_dyn_mle_max_time)});
  I("init_dyn_num_pose", 5, 4, 20, {N(init_options.init_dyn_num_pose)});
  D("init_dyn_min_deg", 45, 0, 90, {N(init_options.init_dyn_min_deg)});
  D("init_dyn_inflation_ori", 10, 1, 100, {N(init_options.init_dyn_inflation_orientation)});
  D("init_dyn_inflation_vel", 10, 1, 100, {N(init_options.init_dyn_inflation_velocity)});
  D("init_dyn_inflation_bg", 100, 1, 200, {N(init_options.init_dyn_inflation_bias_gyro)});
  D("init_dyn_inflation_ba", 100, 1, 200, {N(init_options.init_dyn_inflation_bias_accel)});
  D("init_dyn_min_rec_cond", 1e-15, 1e-15, 1e-9, {N(init_options.init_dyn_min_rec_cond)});
  t.push_back({"init_dyn_bias_g", "v", true, {}, -0.2, 0.2, 0, "", {N(init_options.init_dyn_bias_g(0)), N(init_options.init_dyn_bias_g(1)), N(init_options.init_dyn_bias_g(2))}, nullptr});
  t.push_back({"init_dyn_bias_a", "v", true, {}, -1, 1, 0, "", {N(init_options.init_dyn_bias_a(0)), N(init_options.init_dyn_bias_a(1)), N(init_options.init_dyn_bias_a(2))}, nullptr});
  D("gravity_mag", 9.81, 1, 12, {N(gravity_mag), N(init_options.gravity_mag)});
  B("use_klt", true, {N(use_klt)});
  B("use_aruco", true, {N(use_aruco)});
  B("downsize_aruco", true, {N(downsize_aruco)});
  B("downsample_cameras", false, {N(downsample_cameras), N(init_options.downsample_cameras)});
  I("num_opencv_threads", 4, -1, 16, {N(num_opencv_threads)});
  B("multi_threading_pubs", true, {N(use_multi_threading_pubs)}, false);
  B("multi_threading_subs", false, {N(use_multi_threading_subs)}, false);
  I("num_pts", 150, 1, 1000, {N(num_pts)});
  I("fast_threshold", 20, 1, 100, {N(fast_threshold)});
  I("grid_x", 5, 1, 40, {N(grid_x)});
  I("grid_y", 5, 1, 40, {N(grid_y)});
  I("min_px_dist", 10, 1, 40, {N(min_px_dist)});
  S("histogram_method", {"HISTOGRAM", "NONE", "CLAHE"}, "HISTOGRAM", [](const O &o) {
    return std::string(o.histogram_method == ov_core::TrackBase::HISTOGRAM ? "HISTOGRAM" : o.histogram_method == ov_core::TrackBase::NONE ? "NONE" : "CLAHE");
  });
  D("knn_ratio", 0.85, 0.1, 1, {N(knn_ratio)});
  D("track_frequency", 20, 1, 200, {N(track_frequency)});
  B("fi_triangulate_1d", false, {N(featinit_options.triangulate_1d)}, false);
  B("fi_refine_features", true, {N(featinit_options.refine_features)}, false);
  I("fi_max_runs", 5, 1, 50, {N(featinit_options.max_runs)}, false);
  D("fi_init_lamda", 1e-3, 1e-9, 1, {N(featinit_options.init_lamda)}, false);
  D("fi_max_lamda", 1e10, 1, 1e12, {N(featinit_options.max_lamda)}, false);
  D("fi_min_dx", 1e-6, 1e-9, 1e-3, {N(featinit_options.min_dx)}, false);
  D("fi_min_dcost", 1e-6, 1e-9, 1e-3, {N(featinit_options.min_dcost)}, false);
  D("fi_lam_mult", 10, 1.1, 100, {N(featinit_options.lam_mult)}, false);
  D("fi_min_dist", 0.1, 0, 2, {N(featinit_options.min_dist)}, false);
  D("fi_max_dist", 60, 5, 500, {N(featinit_options.max_dist)}, false);
  D("fi_max_baseline", 40, 1, 500, {N(featinit_options.max_baseline)}, false);
  D("fi_max_cond_number", 10000, 10, 1e6, {N(featinit_options.max_cond_number)}, false);
  D("up_msckf_sigma_px", 1, 0.1, 5, {N(msckf_options.sigma_pix)});
  D("up_msckf_chi2_multipler", 5, 0, 9, {N(msckf_options.chi2_multipler)});
  D("up_slam_sigma_px", 1, 0.1, 5, {N(slam_options.sigma_pix), N(init_options.sigma_pix)});
  D("up_slam_chi2_multipler", 5, 0, 9, {N(slam_options.chi2_multipler)});
  D("up_aruco_sigma_px", 1, 0.1, 9, {N(aruco_options.sigma_pix)});
  D("up_aruco_chi2_multipler", 5, 0, 9, {N(aruco_options.chi2_multipler)});
  B("use_mask", false, {N(use_mask)});
  I("sim_seed_state_init", 0, 0, 100, {N(sim_seed_state_init)});
  I("sim_seed_preturb", 0, 0, 100, {N(sim_seed_preturb)});
  I("sim_seed_measurements", 0, 0, 100, {N(sim_seed_measurements)});
  B("sim_do_perturbation", false, {N(sim_do_perturbation)});
  S("sim_traj_path", {"data/t.txt", "/a/b c.txt"}, "src/open_vins/ov_data/sim/udel_gore.txt", [](const O &o) { return o.sim_traj_path; });
  D("sim_distance_threshold", 1.2, 0, 5, {N(sim_distance_threshold)});
  D("sim_freq_cam", 10, 1, 60, {N(sim_freq_cam)});
  D("sim_freq_imu", 400, 50, 1000, {N(sim_freq_imu)});
  D("sim_min_feature_gen_dist", 5, 1, 6, {N(sim_min_feature_gen_distance)});
  D("sim_max_feature_gen_dist", 10, 7, 20, {N(sim_max_feature_gen_distance)});
  return t;
}
/// options of the inertial file
std::vector<Opt> imu_table() {
  std::vector<Opt> t;
  auto D = [&](const char *n, double d, std::vector<std::function<double(const O &)>> f) { t.push_back({n, "d", true, {}, 1e-6, 1e-1, d, "", f, nullptr}); };
  D("gyroscope_noise_density", 1.6968e-04, {N(imu_noises.sigma_w), N(init_options.sigma_w)});
  D("gyroscope_random_walk", 1.9393e-05, {N(imu_noises.sigma_wb), N(init_options.sigma_wb)});
  D("accelerometer_noise_density", 2e-3, {N(imu_noises.sigma_a), N(init_options.sigma_a)});
  D("accelerometer_random_walk", 3e-3, {N(imu_noises.sigma_ab), N(init_options.sigma_ab)});
  return t;
}
std::string fmt(double x) {
  char b[64];
  snprintf(b, sizeof b, "%.17g", x);
  return b;
}
std::string comment(pbt::Tape &t) { return t.flip(0.2) ? " # a comment" : ""; }
/// one way of writing a value; remembers it
struct Val {
  bool present = false;
  double x = 0;
  std::vector<double> v;
  std::string s, text;
  ros::NodeHandle::Value ros;
  std::string expect_ros;
};
Val gen_value(pbt::Tape &t, const Opt &o) {
  Val r;
  r.present = true;
  if (o.type == "b") {
    r.x = t.flip();
    static const std::vector<std::string> T{"true", "1", "True", "TRUE"}, F{"false", "0", "False", "FALSE"};
    r.text = t.pick(r.x ? T : F);
    r.ros = (bool)r.x;
  } else if (o.type == "i") {
    r.x = t.range((int)o.lo, (int)o.hi);
    r.text = std::to_string((int)r.x);
    r.ros = (int)r.x;
  } else if (o.type == "d") {
    int k = t.range(0, 3);
    if (k == 3 && std::ceil(o.lo) <= o.hi) { // written as an integer
      r.x = t.range((int)std::ceil(o.lo), (int)std::min(o.hi, 1e6));
      r.text = std::to_string((int)r.x);
    } else {
      r.x = o.hi / std::max(o.lo, 1e-300) > 1e3 && o.lo > 0 ? t.logreal(o.lo, o.hi) : t.real(o.lo, o.hi);
      char b[64];
      snprintf(b, sizeof b, k == 0 ? "%.3e" : k == 1 ? "%.17g" : "%.9f", r.x);
      r.text = b;
      if (r.text.find_first_of(".e") == std::string::npos)
        r.text += ".0";
      r.x = strtod(r.text.c_str(), nullptr);
    }
    r.ros = r.x;
  } else if (o.type == "v") {
    r.text = "[";
    for (int i = 0; i < 3; i++) {
      double x = strtod(fmt(t.flip(0.3) ? (double)(int)t.range(-1, 1) : t.sym(o.hi)).c_str(), nullptr);
      r.v.push_back(x);
      std::string s = fmt(x);
      r.text += (i ? ", " : " ") + s;
    }
    r.text += " ]";
    r.ros = r.v;
  } else {
    r.s = t.pick(o.words);
    bool q = t.flip() || r.s.find(' ') != std::string::npos;
    r.text = q ? "\"" + r.s + "\"" : r.s;
    if (!q) { // an unquoted word takes the rest of its line
      r.ros = r.s;
      return r;
    }
    r.ros = r.s;
  }
  r.text += comment(t);
  return r;
}
std::string rows(pbt::Tape &t, const MatrixXd &M, const std::string &indent, bool shorten_row = false, bool drop_row = false) {
  std::string s;
  int style = t.range(0, 1);
  if (style == 1)
    s = " [";
  int nr = (int)M.rows() - (drop_row ? 1 : 0);
  for (int i = 0; i < nr; i++) {
    std::string r = "[";
    int nc = (int)M.cols() - (shorten_row && i == nr - 1 ? 1 : 0);
    for (int j = 0; j < nc; j++)
      r += (j ? ", " : "") + fmt(M(i, j));
    r += "]";
    if (style == 1)
      s += (i ? ", " : "") + r;
    else
      s += "\n" + indent + "- " + r;
  }
  if (style == 1)
    s += "]";
  return s;
}
struct Files {
  std::map<std::string, std::string> main, imu;
  std::vector<std::map<std::string, std::string>> cam;
  bool imu_file = true, cam_file = true, imu_sensor = true, cam_sensor = true;
  std::string imu_ref = "imu.yaml", cam_ref = "cam.yaml";
  void write(const std::string &dir) const {
    auto put = [&](std::ofstream &f, const std::map<std::string, std::string> &m, const std::string &ind) {
      for (auto &p : m) {
        bool multi = p.second.size() && p.second[0] == '\n';
        f << ind << p.first << ":" << (multi ? "" : " ") << p.second << "\n";
      }
    };
    std::ofstream a(dir + "/main.yaml"), b(dir + "/imu.yaml"), d(dir + "/cam.yaml");
    a << "%YAML:1.0\n\nverbosity: \"INFO\"\n";
    put(a, main, "");
    b << "%YAML:1.0\n\n";
    b << (imu_sensor ? "imu0:\n" : "imu9:\n") << "  rostopic: /imu0\n";
    put(b, imu, "  ");
    d << "%YAML:1.0\n\n";
    for (size_t i = 0; i < cam.size(); i++) {
      d << "cam" << i + (cam_sensor ? 0 : 7) << ":\n  rostopic: /cam" << i << "/image_raw\n";
      put(d, cam[i], "  ");
    }
    a.close();
    b.close();
    d.close();
    if (!imu_file)
      unlink((dir + "/imu.yaml").c_str());
    if (!cam_file)
      unlink((dir + "/cam.yaml").c_str());
  }
};
struct CamExp {
  std::string model = "radtan";
  bool has_model = false;
  std::vector<double> k{1, 1, 0, 0}, d{0, 0, 0, 0};
  std::vector<int> wh{1, 1};
  Matrix4d T = Matrix4d::Identity(); // camera to IMU
};
struct Case {
  Files f;
  std::map<std::string, Val> val; // effective
  std::vector<CamExp> cams;
  double dt = 0;
  std::string imu_model = "kalibr";
  Matrix3d Tw = Matrix3d::Identity(), Ta = Matrix3d::Identity(), Racc = Matrix3d::Identity(), Rgyro = Matrix3d::Identity(), Tg = Matrix3d::Zero();
  bool complete = true; // every required option given
  int omitted = 0, overridden = 0;
  std::shared_ptr<ros::NodeHandle> nh = std::make_shared<ros::NodeHandle>();
  std::vector<std::string> masks;
};
std::string vec(const std::vector<double> &v) {
  std::string s = "[";
  for (size_t i = 0; i < v.size(); i++)
    s += (i ? ", " : "") + fmt(v[i]);
  return s + "]";
}
Matrix3d gen_mat3(pbt::Tape &t, double m) {
  Matrix3d M;
  for (int i = 0; i < 3; i++)
    for (int j = 0; j < 3; j++)
      M(i, j) = t.sym(m);
  return M;
}
std::vector<double> flat(const MatrixXd &M) {
  std::vector<double> v;
  for (int i = 0; i < M.rows(); i++)
    for (int j = 0; j < M.cols(); j++)
      v.push_back(M(i, j));
  return v;
}
/// options left out with probability p_omit, overridden by parameters with probability p_ros
Case gen_case(pbt::Tape &t, double p_omit, double p_ros) {
  Case c;
  auto handle = [&](const Opt &o, std::map<std::string, std::string> &file, const std::string &prefix, bool may_omit = true, bool calib_off = false) {
    Val v = gen_value(t, o);
    if (calib_off) {
      v.x = 0;
      v.text = "false";
      v.ros = false;
    }
    bool om = may_omit && t.flip(p_omit);
    if (!om) {
      file[o.name] = v.text;
      c.val[o.name] = v;
    }
    bool over = t.flip(p_ros) && !calib_off;
    if (over) {
      Val w = gen_value(t, o);
      c.nh->params[prefix + o.name] = w.ros;
      c.val[o.name] = w;
      c.overridden++;
    } else if (om) {
      c.omitted++;
      if (o.required)
        c.complete = false;
    }
  };
  // which inertial model, calibration not allowed with a calibrated one
  static const std::vector<std::string> models{"kalibr", "rpng", "calibrated"};
  c.imu_model = t.pick(models);
  for (auto &o : table())
    handle(o, c.f.main, "", o.name != "use_mask", c.imu_model == "calibrated" && o.name.substr(0, 10) == "calib_imu_");
  for (auto &o : imu_table())
    handle(o, c.f.imu, "imu0_");
  c.f.main["relative_config_imu"] = "\"" + c.f.imu_ref + "\"";
  c.f.main["relative_config_imucam"] = "\"" + c.f.cam_ref + "\"";
  if (c.imu_model == "kalibr" && t.flip(p_omit)) {
    c.complete = false;
    c.omitted++;
  } else
    c.f.imu["model"] = t.flip() ? "\"" + c.imu_model + "\"" : c.imu_model;
  auto mat = [&](const char *n, Matrix3d &M, const std::function<Matrix3d()> &g) {
    Matrix3d X = g();
    bool om = t.flip(p_omit);
    if (!om) {
      c.f.imu[n] = rows(t, X, "    ");
      M = X;
    }
    if (t.flip(p_ros)) {
      M = g();
      c.nh->params[std::string("imu0_") + n] = flat(M);
      c.overridden++;
    } else if (om) {
      c.complete = false;
      c.omitted++;
    }
  };
  mat("Tw", c.Tw, [&] { return Matrix3d(Matrix3d::Identity() + gen_mat3(t, 0.1)); });
  mat("Ta", c.Ta, [&] { return Matrix3d(Matrix3d::Identity() + gen_mat3(t, 0.1)); });
  mat("R_IMUtoACC", c.Racc, [&] { return expR(Vector3d(t.sym(2), t.sym(2), t.sym(2))); });
  mat("R_IMUtoGYRO", c.Rgyro, [&] { return expR(Vector3d(t.sym(2), t.sym(2), t.sym(2))); });
  mat("Tg", c.Tg, [&] { return gen_mat3(t, 0.01); });
  int nc = c.val.count("max_cameras") ? (int)c.val["max_cameras"].x : 1;
  int extra = t.range(0, 1); // cameras in the file which are not used
  for (int i = 0; i < nc + extra; i++) {
    CamExp e;
    std::map<std::string, std::string> f;
    std::string pre = "cam" + std::to_string(i) + "_";
    bool used = i < nc;
    auto item = [&](const char *n, const std::function<std::pair<std::string, ros::NodeHandle::Value>(bool)> &g, bool required) {
      bool om = t.flip(p_omit), ov = t.flip(p_ros);
      auto a = g(!om && !ov);
      if (!om)
        f[n] = a.first;
      if (ov) {
        c.nh->params[pre + n] = g(true).second;
        c.overridden++;
      } else if (om && used) {
        c.omitted++;
        if (required)
          c.complete = false;
      }
    };
    typedef std::pair<std::string, ros::NodeHandle::Value> SV;
    item("distortion_model", [&](bool use) {
      std::string m = t.flip() ? "equidistant" : "radtan";
      if (use)
        e.model = m;
      return SV(t.flip() ? m : "\"" + m + "\"", m);
    }, true);
    item("intrinsics", [&](bool use) {
      std::vector<double> k{t.real(100, 900), t.real(100, 900), t.real(100, 900), t.real(100, 500)};
      if (t.flip(0.2))
        k[2] = std::floor(k[2]);
      if (use)
        e.k = k;
      return SV(vec(k), k);
    }, true);
    item("distortion_coeffs", [&](bool use) {
      std::vector<double> k{t.sym(0.4), t.sym(0.1), t.sym(1e-3), t.sym(1e-3)};
      if (use)
        e.d = k;
      return SV(vec(k), k);
    }, true);
    item("resolution", [&](bool use) {
      std::vector<int> k{t.range(1, 2000), t.range(1, 2000)};
      if (use)
        e.wh = k;
      return SV("[" + std::to_string(k[0]) + ", " + std::to_string(k[1]) + "]", k);
    }, true);
    item("T_imu_cam", [&](bool use) {
      Matrix4d T = Matrix4d::Identity();
      T.topLeftCorner(3, 3) = expR(Vector3d(t.sym(2.5), t.sym(2.5), t.sym(2.5)));
      T.topRightCorner(3, 1) << t.sym(1), t.sym(1), t.sym(1);
      if (use)
        e.T = T;
      return SV(rows(t, T, "    "), flat(T));
    }, true);
    if (f.count("T_imu_cam") && !c.nh->params.count(pre + "T_imu_cam") && t.flip(0.4)) { // the inverse may be given instead
      f.erase("T_imu_cam");
      Matrix4d I = Matrix4d::Identity();
      I.topLeftCorner(3, 3) = e.T.topLeftCorner(3, 3).transpose();
      I.topRightCorner(3, 1) = -I.topLeftCorner(3, 3) * e.T.topRightCorner(3, 1);
      f["T_cam_imu"] = rows(t, I, "    ");
    }
    {
      double dt = t.sym(0.05);
      bool om = t.flip(p_omit);
      if (!om)
        f["timeshift_cam_imu"] = fmt(dt);
      if (i == 0) {
        if (!om)
          c.dt = strtod(fmt(dt).c_str(), nullptr);
        if (t.flip(p_ros)) {
          c.dt = t.sym(0.05);
          c.nh->params[pre + "timeshift_cam_imu"] = c.dt;
        }
      }
    }
    c.f.cam.push_back(f);
    if (used)
      c.cams.push_back(e);
  }
  return c;
}
bool half(Case &c) { return c.val.count("downsample_cameras") && c.val["downsample_cameras"].x; }
void make_masks(Case &c, const std::string &dir, pbt::Tape &t) {
  if (!c.val.count("use_mask") || !c.val["use_mask"].x)
    return;
  for (size_t i = 0; i < c.cams.size(); i++) {
    int w = c.cams[i].wh[0] / (half(c) ? 2 : 1), h = c.cams[i].wh[1] / (half(c) ? 2 : 1);
    if (w < 1 || h < 1)
      throw pbt::Discard("image without pixels");
    cv::Mat m(h, w, CV_8UC1, cv::Scalar(0));
    m(cv::Rect(0, 0, std::max(1, w / 2), std::max(1, h / 3))) = 255;
    m.at<unsigned char>(h - 1, w - 1) = (unsigned char)(100 + i);
    std::string n = "mask_" + std::to_string(i) + ".png";
    cv::imwrite(dir + "/" + n, m);
    c.f.main["mask" + std::to_string(i)] = "\"" + n + "\"";
    c.masks.push_back(n);
  }
}
std::shared_ptr<ov_core::YamlParser> load(const std::string &dir, O &o, const std::shared_ptr<ros::NodeHandle> &nh) {
  auto p = std::make_shared<ov_core::YamlParser>(dir + "/main.yaml");
  if (nh)
    p->set_node_handler(nh);
  o.print_and_load(p);
  o.print_and_load_simulation(p);
  return p;
}
void compare(pbt::Ctx &c, Case &k, O &o, const std::string &dir) {
  auto tab = table();
  auto ti = imu_table();
  tab.insert(tab.end(), ti.begin(), ti.end());
  for (auto &p : tab) {
    auto it = k.val.find(p.name);
    bool has = it != k.val.end();
    if (p.type == "s") {
      std::string e = has ? it->second.s : p.dstr;
      REQUIRE(p.str(o) == e, p.name << (has ? " written as " : " left out, default ") << e << " but loaded as " << p.str(o));
      continue;
    }
    for (size_t i = 0; i < p.num.size(); i++) {
      double e = has ? (p.type == "v" ? it->second.v[i] : it->second.x) : p.dflt;
      double x = p.num[i](o);
      REQUIRE(x == e, p.name << "#" << i << (has ? " given as " : " left out, default ") << fmt(e) << " but loaded as " << fmt(x));
    }
  }
  for (auto &u : {o.msckf_options, o.slam_options, o.aruco_options})
    REQUIRE(std::abs(u.sigma_pix_sq - u.sigma_pix * u.sigma_pix) <= 1e-12 * u.sigma_pix_sq, "squared pixel noise");
  double hf = half(k) ? 2 : 1;
  REQUIRE(o.calib_camimu_dt == k.dt && o.init_options.calib_camimu_dt == k.dt, "time offset " << fmt(k.dt) << " loaded as " << o.calib_camimu_dt << " / " << o.init_options.calib_camimu_dt);
  auto cams = [&](const std::unordered_map<size_t, std::shared_ptr<ov_core::CamBase>> &in, const std::map<size_t, Eigen::VectorXd> &ex, const char *who) {
    REQUIRE(in.size() == k.cams.size() && ex.size() == k.cams.size(), who << ": " << in.size() << " cameras");
    for (size_t i = 0; i < k.cams.size(); i++) {
      auto &e = k.cams[i];
      REQUIRE((std::dynamic_pointer_cast<ov_core::CamEqui>(in.at(i)) != nullptr) == (e.model == "equidistant"), who << ": lens model of camera " << i << " should be " << e.model);
      REQUIRE(in.at(i)->w() == e.wh[0] / (int)hf && in.at(i)->h() == e.wh[1] / (int)hf, who << ": resolution " << in.at(i)->w() << "x" << in.at(i)->h() << " from " << e.wh[0] << "x" << e.wh[1]);
      MatrixXd v = in.at(i)->get_value();
      for (int j = 0; j < 4; j++) {
        REQUIRE(v(j) == e.k[j] / hf, who << ": intrinsic " << j << " of camera " << i << " is " << fmt(v(j)) << " from " << fmt(e.k[j]));
        REQUIRE(v(4 + j) == e.d[j], who << ": distortion " << j << " of camera " << i);
      }
      VectorXd x = ex.at(i);
      REQUIRE(x.rows() == 7 && std::abs(x.head(4).norm() - 1) < 1e-9, who << ": extrinsics");
      Matrix3d R = e.T.topLeftCorner(3, 3).transpose();
      Vector3d p = -R * e.T.topRightCorner(3, 1);
      pbt::near(c, rdist(jplR(Vector4d(x.head(4))), R), 0, 1e-7, "camera orientation");
      pbt::near(c, (x.tail(3) - p).norm(), 0, 1e-9, "camera position");
    }
  };
  cams(o.camera_intrinsics, o.camera_extrinsics, "estimator");
  cams(o.init_options.camera_intrinsics, o.init_options.camera_extrinsics, "initialiser");
  Matrix3d Dw = k.Tw.inverse(), Da = k.Ta.inverse();
  VectorXd w(6), a(6), g(9);
  if (k.imu_model == "rpng") {
    REQUIRE(o.state_options.imu_model == StateOptions::RPNG, "inertial model");
    w << Dw(0, 0), Dw(0, 1), Dw(1, 1), Dw(0, 2), Dw(1, 2), Dw(2, 2);
    a << Da(0, 0), Da(0, 1), Da(1, 1), Da(0, 2), Da(1, 2), Da(2, 2);
  } else {
    REQUIRE(o.state_options.imu_model == StateOptions::KALIBR, "inertial model");
    w << Dw(0, 0), Dw(1, 0), Dw(2, 0), Dw(1, 1), Dw(2, 1), Dw(2, 2);
    a << Da(0, 0), Da(1, 0), Da(2, 0), Da(1, 1), Da(2, 1), Da(2, 2);
  }
  g << k.Tg.col(0), k.Tg.col(1), k.Tg.col(2);
  pbt::near_mat(c, o.vec_dw, w, 1e-12, "gyroscope intrinsics");
  pbt::near_mat(c, o.vec_da, a, 1e-12, "accelerometer intrinsics");
  pbt::near_mat(c, o.vec_tg, g, 1e-15, "gravity sensitivity");
  pbt::near(c, rdist(jplR(o.q_ACCtoIMU), Matrix3d(k.Racc.transpose())), 0, 1e-7, "accelerometer frame");
  pbt::near(c, rdist(jplR(o.q_GYROtoIMU), Matrix3d(k.Rgyro.transpose())), 0, 1e-7, "gyroscope frame");
  REQUIRE(o.masks.size() == k.masks.size(), "masks loaded: " << o.masks.size());
  for (size_t i = 0; i < k.masks.size(); i++) {
    cv::Mat m = cv::imread(dir + "/" + k.masks[i], cv::IMREAD_GRAYSCALE);
    REQUIRE(o.masks.at(i).size() == m.size() && cv::countNonZero(o.masks.at(i) != m) == 0, "mask " << i << " differs from its file");
  }
}
std::string fresh_dir() {
  std::string d = pbt::scratch_dir() + "/cfg";
  mkdir(d.c_str(), 0700);
  return d;
}
} // namespace

PBT_PART(honoured, 700, 600, 12000) {
  ov_core::Printer::setPrintLevel("SILENT");
  int cls = t.range(0, 4);
  double p_omit = cls == 1 ? 0.1 : cls == 2 ? 0.5 : cls == 3 ? 0.02 : 0, p_ros = cls == 4 ? 0.3 : cls == 2 ? 0.1 : 0;
  Case k = gen_case(t, p_omit, p_ros);
  std::string dir = fresh_dir();
  make_masks(k, dir, t);
  k.f.write(dir);
  O o;
  auto p = load(dir, o, p_ros > 0 || t.flip(0.2) ? k.nh : nullptr);
  compare(c, k, o, dir);
  REQUIRE(p->successful() == k.complete, (k.complete ? "complete files reported as incomplete" : "left out options not reported") << " (" << k.omitted << " left out)");
  c.label(k.complete ? "complete" : "incomplete");
  c.label(k.imu_model);
  if (k.overridden)
    c.label("overridden");
  if (half(k))
    c.label("halved");
  if (k.masks.size())
    c.label("masks");
  c.sample << k.cams.size() << " cameras, " << k.omitted << " left out, " << k.overridden << " overridden, " << k.imu_model;
  c.nontrivial(true);
}

PBT_PART(malformed, 760, 600, 12000) {
  ov_core::Printer::setPrintLevel("SILENT");
  Case k = gen_case(t, 0, 0);
  std::string dir = fresh_dir();
  make_masks(k, dir, t);
  std::string what;
  auto tab = table();
  auto words = [&] { return t.pick(std::vector<std::string>{"abc", "\"1.5\"", "maybe", "~", "\"\"", "yes please", "0.5.5x"}); };
  auto lists = [&] { return t.pick(std::vector<std::string>{"[1, 2]", "[ 1.0 ]", "[[1, 2], [3, 4]]"}); };
  int kind = t.range(0, 9);
  if (kind <= 3) { // one option of the main or the inertial file
    auto ti = imu_table();
    size_t n = tab.size() + ti.size(), i = (size_t)t.range(0, (int)n - 1);
    const Opt &o = i < tab.size() ? tab[i] : ti[i - tab.size()];
    auto &file = i < tab.size() ? k.f.main : k.f.imu;
    std::string bad;
    int how = t.range(0, 2);
    if (o.type == "b")
      bad = how == 0 ? words() : how == 1 ? t.pick(std::vector<std::string>{"2", "-1", "tru", "0.5"}) : lists();
    else if (o.type == "i")
      bad = how == 0 ? words() : how == 1 ? t.pick(std::vector<std::string>{"3.7", "20.25"}) : lists();
    else if (o.type == "d")
      bad = how == 0 ? words() : how == 1 ? "true" : lists();
    else if (o.type == "v")
      bad = how == 0 ? words() : how == 1 ? "[0.1, 0.2]" : t.pick(std::vector<std::string>{"[1, 2, x]", "0.5", "[]"});
    else if (o.name == "record_timing_filepath" || o.name == "sim_traj_path")
      bad = how == 0 ? "12" : how == 1 ? "3.5" : lists();
    else
      bad = how == 0 ? words() : how == 1 ? "3" : t.pick(std::vector<std::string>{"rk5", "global_3d", "kalibr2", "GLOBAL", "HISTOGRAMS", "clahe"});
    // out-of-range values the library documents as errors
    static const std::map<std::string, std::vector<std::string>> ranges{{"init_max_features", {"14", "0", "-3"}}, {"init_dyn_num_pose", {"3", "0"}}};
    auto r = ranges.find(o.name);
    if (r != ranges.end() && t.flip())
      bad = t.pick(r->second);
    if ((o.name == "init_imu_thresh" || o.name == "init_max_disparity") && t.flip()) {
      bad = t.pick(std::vector<std::string>{"0", "-1.5", "0.0"});
      k.f.main["init_dyn_use"] = "false";
    }
    file[o.name] = bad;
    what = o.name + ": " + bad;
    c.label("option type " + o.type);
  } else if (kind == 4) { // a matrix
    std::vector<std::string> ms{"Tw", "Ta", "R_IMUtoACC", "R_IMUtoGYRO", "Tg"};
    bool ext = t.flip(0.3);
    std::string n = ext ? (k.f.cam[0].count("T_imu_cam") ? "T_imu_cam" : "T_cam_imu") : t.pick(ms);
    auto &f = ext ? k.f.cam[0] : k.f.imu;
    MatrixXd M = ext ? MatrixXd(k.cams[0].T) : MatrixXd(Matrix3d::Identity() + gen_mat3(t, 0.1));
    int how = t.range(0, 5);
    if (how == 0)
      f[n] = rows(t, M, "    ", true, false);
    else if (how == 1)
      f[n] = rows(t, M, "    ", false, true);
    else if (how == 2)
      f[n] = vec(flat(M));
    else if (how == 3)
      f[n] = words();
    else if (how == 4) {
      std::string s = rows(t, M, "    ");
      size_t p = s.rfind(',');
      s = s.substr(0, p) + ", x" + s.substr(s.find(']', p));
      f[n] = s;
    } else if (!ext && (n == "Tw" || n == "Ta")) {
      M.row(1) = 2 * M.row(0); // cannot be inverted
      if (t.flip())
        M.setZero();
      f[n] = rows(t, M, "    ");
    } else
      f[n] = "5";
    what = n + ":" + f[n];
    c.label("matrix");
  } else if (kind == 5) { // camera lists
    static const std::vector<std::string> ns{"intrinsics", "distortion_coeffs", "resolution"};
    std::string n = t.pick(ns);
    int cam = t.range(0, (int)k.cams.size() - 1);
    auto &x = k.f.cam[cam][n];
    int how = t.range(0, 3);
    x = how == 0 ? words() : how == 1 ? "[1.0]" : how == 2 ? "[1.0, x, 2, 3]" : n == "resolution" ? "[640.5, 480]" : "[300, 300, 320]";
    what = n + ": " + x;
    c.label("camera list");
  } else if (kind == 6) { // lens model
    int cam = t.range(0, (int)k.cams.size() - 1);
    k.f.cam[cam]["distortion_model"] = t.pick(std::vector<std::string>{"fov", "none", "equi", "RADTAN", "equidistant2", "4", "[1, 2]"});
    what = "distortion_model: " + k.f.cam[cam]["distortion_model"];
    c.label("lens model");
  } else if (kind == 7) { // files and sensors
    int how = t.range(0, 6);
    if (how == 0)
      k.f.imu_file = false;
    else if (how == 1)
      k.f.cam_file = false;
    else if (how == 2)
      k.f.imu_sensor = false;
    else if (how == 3)
      k.f.cam_sensor = false;
    else if (how == 4)
      k.f.main.erase("relative_config_imu");
    else if (how == 5)
      k.f.main.erase("relative_config_imucam");
    else
      k.f.cam.resize(k.cams.size() - 1);
    what = "file or sensor " + std::to_string(how);
    c.label("file or sensor missing");
  } else if (kind == 8) { // inertial model
    if (t.flip()) {
      k.f.imu["model"] = t.pick(std::vector<std::string>{"kalibr2", "KALIBR", "none", "3"});
      what = "model " + k.f.imu["model"];
    } else {
      k.f.imu["model"] = "calibrated";
      k.f.main[t.flip() ? "calib_imu_intrinsics" : "calib_imu_g_sensitivity"] = "true";
      what = "calibrated model with calibration";
    }
    c.label("inertial model");
  } else { // masks
    k.f.main["use_mask"] = "true";
    int how = t.range(0, 2);
    for (size_t i = 0; i < k.cams.size(); i++) {
      cv::Mat m(k.cams[i].wh[1] + 3, k.cams[i].wh[0] + 1, CV_8UC1, cv::Scalar(0));
      std::string n = "bad_" + std::to_string(i) + ".png";
      if (how == 0)
        cv::imwrite(dir + "/" + n, m);
      else if (how == 1)
        std::ofstream(dir + "/" + n) << "not an image\n";
      else
        n = "nothing_there.png";
      k.f.main["mask" + std::to_string(i)] = "\"" + n + "\"";
    }
    what = "mask " + std::to_string(how);
    c.label("mask");
  }
  k.f.write(dir);
  int ok = 0;
  int pf[2];
  if (pipe(pf) != 0)
    throw pbt::Discard("pipe");
  auto r = pbt::run_child([&] {
    O o;
    auto p = load(dir, o, nullptr);
    char b = p->successful() ? 's' : 'f';
    if (write(pf[1], &b, 1) != 1) {
    }
  });
  close(pf[1]);
  char b = 0;
  if (read(pf[0], &b, 1) == 1)
    ok = b == 's';
  close(pf[0]);
  c.sample << what << " -> " << (r.returned ? (ok ? "accepted" : "reported by flag") : r.status == 99 ? "exception" : "exit " + std::to_string(r.status));
  REQUIRE(!(r.returned && ok), "accepted without any report: " << what);
  REQUIRE(r.returned || r.status > 0, "ended by " << (r.status ? "signal " + std::to_string(-r.status) : std::string("a successful exit")) << ": " << what);
  c.label(r.returned ? "reported by flag" : r.status == 99 ? "reported by exception" : "reported by exit");
  c.nontrivial(true);
}

PBT_PART(shipped, 2, 60, 600) {
  ov_core::Printer::setPrintLevel("SILENT");
  static const std::vector<std::string> dirs{"euroc_mav", "kaist", "kaist_vio", "rpng_aruco", "rpng_ironsides", "rpng_plane", "rpng_sim", "rs_d455", "rs_t265", "tum_vi", "uzhfpv_indoor", "uzhfpv_indoor_45",
                                             "uzhfpv_outdoor", "uzhfpv_outdoor_45"};
  std::string d = std::string(VERIF_REPO_DIR) + "/config/" + t.pick(dirs);
  O o;
  auto p = std::make_shared<ov_core::YamlParser>(d + "/estimator_config.yaml");
  o.print_and_load(p);
  REQUIRE(p->successful(), d << " is reported as incomplete");
  c.label("loaded");
  c.sample << d;
  c.nontrivial(true);
}
