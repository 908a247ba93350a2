// C25: trajectory, ground-truth and timing files.
#include "forkrun.h"
#include "pbt.h"
#include <Eigen/Eigen>
#include <fstream>
#include "utils/Loader.h"
#include "utils/dataset_reader.h"
#include "utils/print.h"
#define main format_converter_main
#include "format_converter.cpp"
#undef main
#include <unistd.h>
using Eigen::MatrixXd;
using Eigen::VectorXd;
typedef Eigen::Matrix<double, 7, 1> Pose;
using ov_core::DatasetReader;
using ov_eval::Loader;

static bool same(double a, double b) { return a == b || (std::isnan(a) && std::isnan(b)); }
/// one number in one of the usual printed forms; value is what the text says
static std::string num(pbt::Tape &t, double x, double &value) {
  char b[64];
  int k = t.range(0, 5);
  if (k == 0)
    snprintf(b, sizeof b, "%.6f", x);
  else if (k == 1)
    snprintf(b, sizeof b, "%.17g", x);
  else if (k == 2)
    snprintf(b, sizeof b, "%.9e", x);
  else if (k == 3)
    snprintf(b, sizeof b, "%d", (int)x);
  else if (k == 4)
    snprintf(b, sizeof b, "%.3f", x);
  else
    snprintf(b, sizeof b, "%+.12g", x);
  value = strtod(b, nullptr);
  return b;
}
struct Rows {
  std::vector<std::vector<double>> rows; ///< data rows, all fields
  int comments = 0, blanks = 0, shorts = 0;
};
/// a text file of rows; width(i) gives the number of fields of a row
struct Style {
  char sep = ' ';
  bool crlf = false, comments = true, blanks = true, wsblanks = true;
  int shortmin = 0, shortmax = 0; ///< sometimes rows with too few fields
};
static void junk(pbt::Tape &t, const Style &st, std::string &o, Rows &r, const std::string &eol) {
  if (!t.flip(0.2))
    return;
  int k = t.range(0, 3);
  if (k == 0 && st.comments) {
    o += t.pick(std::vector<std::string>{"# a comment", "#", "# 1 2 3 4 5 6 7 8 9", "#1,2,3,4,5,6,7,8,9"}) + eol;
    r.comments++;
  } else if (k == 1 && st.blanks) {
    o += eol;
    r.blanks++;
  } else if (k == 2 && st.blanks && st.wsblanks) {
    o += t.pick(std::vector<std::string>{" ", "   ", "\t"}) + eol;
    r.blanks++;
  } else if (k == 3 && st.shortmax > 0) {
    int n = t.range(st.shortmin, st.shortmax);
    for (int i = 0; i < n; i++)
      o += (i ? std::string(1, st.sep) : std::string()) + std::to_string(i + 1);
    o += eol;
    r.shorts++;
  }
}
static std::string text(pbt::Tape &t, const Style &st, int nrows, const std::function<int(int)> &width, const std::function<double(int, int)> &val, Rows &r) {
  std::string o, eol = st.crlf ? "\r\n" : "\n";
  for (int i = 0; i < nrows; i++) {
    junk(t, st, o, r, eol);
    std::vector<double> v;
    int w = width(i);
    if (st.sep == ' ' && t.flip(0.1))
      o += " ";
    for (int k = 0; k < w; k++) {
      double x;
      if (k)
        o += st.sep;
      if (k && st.sep == ' ' && t.flip(0.05))
        o += " ";
      o += num(t, val(i, k), x);
      v.push_back(x);
    }
    if (st.sep == ' ' && !st.crlf && t.flip(0.1))
      o += " ";
    if (i + 1 < nrows || !t.flip(0.2))
      o += eol; // the last row may lack its end of line
    r.rows.push_back(v);
  }
  if (!o.empty() && o.back() == '\n')
    junk(t, st, o, r, eol);
  return o;
}
static void save(const std::string &p, const std::string &s) {
  std::ofstream f(p, std::ios::binary);
  f << s;
}
static double anyval(pbt::Tape &t) { return t.flip(0.2) ? 0.0 : t.sym(1) * t.logreal(1e-4, 1e4); }
static std::string rname(const Rows &r) {
  return std::to_string(r.rows.size()) + " rows, " + std::to_string(r.comments) + " comments, " + std::to_string(r.blanks) + " blank, " + std::to_string(r.shorts) + " short";
}
#define SETUP                                                                                                                             \
  ov_core::Printer::setPrintLevel("SILENT");                                                                                              \
  std::string path = pbt::scratch_dir() + "/in.txt";                                                                                      \
  Rows r;                                                                                                                                 \
  Style st;                                                                                                                               \
  st.crlf = t.flip(0.15)

PBT_PART(trajectory, 600, 60000, 600000) {
  SETUP;
  st.shortmin = 1;
  st.shortmax = 7;
  int n = t.range(0, 8), kind = t.range(0, 2), extra = t.range(0, 3), mixrow = t.flip(0.1) ? t.range(0, 7) : -1;
  double base = t.pick(std::vector<double>{0, 1403636580.0});
  auto width = [&](int i) {
    bool cov = (kind == 2) != (i == mixrow);
    return cov ? 20 + extra : kind == 0 ? 8 : 8 + 2 * extra;
  };
  save(path, text(t, st, n, width, [&](int i, int k) { return k == 0 ? base + 0.05 * i : anyval(t); }, r));
  bool mixed = false;
  for (auto &x : r.rows)
    mixed = mixed || ((x.size() >= 20) != (r.rows[0].size() >= 20));
  if (r.rows.empty() || mixed) {
    if (!t.flip(0.1))
      return;
    auto res = pbt::run_child([&]() {
      std::vector<double> tm;
      std::vector<Pose> p;
      std::vector<Eigen::Matrix3d> a, b;
      Loader::load_data(path, tm, p, a, b);
    });
    REQUIRE(!res.returned && res.status == EXIT_FAILURE, "file with " << rname(r) << (mixed ? " (only some with covariance)" : "") << " was not refused: " << res.status);
    c.label("refused");
    return;
  }
  std::vector<double> tm;
  std::vector<Pose> p;
  std::vector<Eigen::Matrix3d> co, cp;
  Loader::load_data(path, tm, p, co, cp);
  bool cov = r.rows[0].size() >= 20;
  REQUIRE(tm.size() == r.rows.size() && p.size() == tm.size(), "loaded " << tm.size() << " of " << rname(r));
  REQUIRE(co.size() == (cov ? tm.size() : 0) && cp.size() == co.size(), "loaded " << co.size() << " covariances of " << rname(r));
  for (size_t i = 0; i < tm.size(); i++) {
    auto &d = r.rows[i];
    REQUIRE(same(tm[i], d[0]), "time of row " << i << ": " << tm[i] << " instead of " << d[0]);
    for (int k = 0; k < 7; k++)
      REQUIRE(same(p[i](k), d[1 + k]), "field " << k + 1 << " of row " << i << ": " << p[i](k) << " instead of " << d[1 + k]);
    if (cov) {
      int idx[3][3] = {{0, 1, 2}, {1, 3, 4}, {2, 4, 5}};
      for (int a = 0; a < 3; a++)
        for (int b = 0; b < 3; b++) {
          REQUIRE(same(co[i](a, b), d[8 + idx[a][b]]), "orientation covariance " << a << b << " of row " << i);
          REQUIRE(same(cp[i](a, b), d[14 + idx[a][b]]), "position covariance " << a << b << " of row " << i);
        }
    }
  }
  // path length
  double len = 0;
  for (size_t i = 1; i < r.rows.size(); i++)
    len += std::sqrt(std::pow(r.rows[i][1] - r.rows[i - 1][1], 2) + std::pow(r.rows[i][2] - r.rows[i - 1][2], 2) + std::pow(r.rows[i][3] - r.rows[i - 1][3], 2));
  pbt::near(c, Loader::get_total_length(p), len, 1e-10 * (1 + len), "path length");
  c.nontrivial(r.comments + r.blanks + r.shorts > 0);
  c.label(cov ? "with covariance" : "poses only");
  if (c.want_sample)
    c.sample << rname(r) << ", " << r.rows[0].size() << " fields" << (st.crlf ? ", CRLF" : "");
}

PBT_PART(trajectory_csv, 600, 40000, 400000) {
  SETUP;
  st.sep = ',';
  st.shortmin = 1;
  st.shortmax = 7;
  int n = t.range(0, 8), w = t.pick(std::vector<int>{8, 9, 17, 24});
  double base = t.pick(std::vector<double>{0, 1403636579758555500.0});
  save(path, text(t, st, n, [&](int) { return w; }, [&](int i, int k) { return k == 0 ? (base == 0 ? 5e7 * i : base) : anyval(t); }, r));
  if (r.rows.empty()) {
    if (!t.flip(0.1))
      return;
    auto res = pbt::run_child([&]() {
      std::vector<double> tm;
      std::vector<Pose> p;
      std::vector<Eigen::Matrix3d> a, b;
      Loader::load_data_csv(path, tm, p, a, b);
    });
    REQUIRE(!res.returned && res.status == EXIT_FAILURE, "file without data was not refused: " << res.status);
    c.label("refused");
    return;
  }
  std::vector<double> tm;
  std::vector<Pose> p;
  std::vector<Eigen::Matrix3d> co, cp;
  Loader::load_data_csv(path, tm, p, co, cp);
  REQUIRE(tm.size() == r.rows.size() && p.size() == tm.size(), "loaded " << tm.size() << " of " << rname(r));
  int from[7] = {1, 2, 3, 5, 6, 7, 4};
  for (size_t i = 0; i < tm.size(); i++) {
    auto &d = r.rows[i];
    REQUIRE(std::fabs(tm[i] - d[0] / 1e9) <= 1e-15 * std::fabs(d[0]) / 1e9 * 2, "time of row " << i << ": " << tm[i] << " instead of " << d[0] / 1e9);
    for (int k = 0; k < 7; k++)
      REQUIRE(same(p[i](k), d[from[k]]), "pose component " << k << " of row " << i << ": " << p[i](k) << " instead of " << d[from[k]]);
  }
  c.nontrivial(r.comments + r.blanks + r.shorts > 0);
  if (c.want_sample)
    c.sample << rname(r) << ", " << w << " fields";
}

PBT_PART(simulation, 600, 40000, 400000) {
  SETUP;
  int n = t.range(0, 8), w = t.range(1, 20), odd = t.flip(0.1) ? t.range(0, 7) : -1;
  save(path, text(t, st, n, [&](int i) { return i == odd ? w + 1 : w; }, [&](int i, int k) { return k == 0 ? 100 + 0.05 * i : anyval(t); }, r));
  bool mixed = false;
  for (auto &x : r.rows)
    mixed = mixed || x.size() != r.rows[0].size();
  if (r.rows.empty() || mixed) {
    if (!t.flip(0.1))
      return;
    auto res = pbt::run_child([&]() {
      std::vector<VectorXd> v;
      Loader::load_simulation(path, v);
    });
    REQUIRE(!res.returned && res.status == EXIT_FAILURE, "file with " << rname(r) << (mixed ? " of unequal length" : "") << " was not refused: " << res.status);
    c.label("refused");
    return;
  }
  std::vector<VectorXd> v;
  Loader::load_simulation(path, v);
  REQUIRE(v.size() == r.rows.size(), "loaded " << v.size() << " of " << rname(r));
  for (size_t i = 0; i < v.size(); i++) {
    REQUIRE(v[i].size() == (int)r.rows[i].size(), "row " << i << " has " << v[i].size() << " values");
    for (int k = 0; k < v[i].size(); k++)
      REQUIRE(same(v[i](k), r.rows[i][k]), "value " << k << " of row " << i << ": " << v[i](k) << " instead of " << r.rows[i][k]);
  }
  c.nontrivial(r.comments + r.blanks > 0);
  if (c.want_sample)
    c.sample << rname(r) << ", " << w << " values";
}

PBT_PART(timing_flamegraph, 600, 40000, 400000) {
  SETUP;
  st.sep = ',';
  st.comments = false;
  int n = t.range(0, 8), w = t.range(1, 8), odd = t.flip(0.1) ? t.range(0, 7) : -1;
  std::string head;
  if (t.flip(0.2))
    head += "# recorded on some machine\n";
  std::vector<std::string> names;
  head += "# timestamp (sec)";
  for (int k = 0; k < w; k++) {
    names.push_back(t.pick(std::vector<std::string>{"tracking", "propagation", "msckf update", "slam delayed", "re-tri & marg", "total"}) + (t.flip(0.3) ? std::to_string(k) : ""));
    head += "," + names.back();
  }
  head += st.crlf ? "\n" : "\n";
  std::string body = text(t, st, n, [&](int i) { return 1 + (i == odd ? w + 1 : w); }, [&](int i, int k) { return k == 0 ? 1520530308.0 + 0.05 * i : std::fabs(anyval(t)); }, r);
  save(path, head + body);
  bool mixed = false;
  for (auto &x : r.rows)
    mixed = mixed || (int)x.size() != w + 1;
  if (r.rows.empty() || mixed) {
    if (!t.flip(0.1))
      return;
    auto res = pbt::run_child([&]() {
      std::vector<std::string> nm;
      std::vector<double> tm;
      std::vector<VectorXd> v;
      Loader::load_timing_flamegraph(path, nm, tm, v);
    });
    REQUIRE(!res.returned && res.status == EXIT_FAILURE, "file with " << rname(r) << (mixed ? " not matching the header" : "") << " was not refused: " << res.status);
    c.label("refused");
    return;
  }
  std::vector<std::string> nm;
  std::vector<double> tm;
  std::vector<VectorXd> v;
  Loader::load_timing_flamegraph(path, nm, tm, v);
  REQUIRE(nm == names, "loaded " << nm.size() << " category names of " << names.size());
  REQUIRE(tm.size() == r.rows.size() && v.size() == tm.size(), "loaded " << tm.size() << " of " << rname(r));
  for (size_t i = 0; i < v.size(); i++) {
    REQUIRE(same(tm[i], r.rows[i][0]), "time of row " << i);
    REQUIRE(v[i].size() == w, "row " << i << " has " << v[i].size() << " values");
    for (int k = 0; k < w; k++)
      REQUIRE(same(v[i](k), r.rows[i][k + 1]), "value " << k << " of row " << i << ": " << v[i](k) << " instead of " << r.rows[i][k + 1]);
  }
  c.nontrivial(r.blanks > 0 || w > 1);
  if (c.want_sample)
    c.sample << rname(r) << ", " << w << " categories";
}

PBT_PART(timing_percent, 600, 40000, 400000) {
  SETUP;
  int n = t.range(1, 8), w = t.range(4, 12);
  save(path, text(t, st, n, [&](int) { return w; }, [&](int i, int k) { return k == 0 ? 100 + 0.05 * i : k == 3 ? t.range(0, 3) : std::fabs(anyval(t)); }, r));
  std::vector<std::vector<double>> keep;
  for (auto &x : r.rows)
    if (x[3] != 0)
      keep.push_back(x);
  if (keep.empty()) {
    if (!t.flip(0.1))
      return;
    auto res = pbt::run_child([&]() {
      std::vector<double> tm;
      std::vector<Eigen::Vector3d> s;
      std::vector<VectorXd> v;
      Loader::load_timing_percent(path, tm, s, v);
    });
    REQUIRE(!res.returned && res.status == EXIT_FAILURE, "file without active rows was not refused: " << res.status);
    c.label("refused");
    return;
  }
  std::vector<double> tm;
  std::vector<Eigen::Vector3d> s;
  std::vector<VectorXd> v;
  Loader::load_timing_percent(path, tm, s, v);
  REQUIRE(tm.size() == keep.size() && v.size() == tm.size() && s.size() == tm.size(), "loaded " << tm.size() << " rows, " << keep.size() << " have threads; " << rname(r));
  for (size_t i = 0; i < v.size(); i++) {
    REQUIRE(same(tm[i], keep[i][0]), "time of row " << i);
    for (int k = 0; k < 3; k++)
      REQUIRE(same(s[i](k), keep[i][1 + k]), "sum " << k << " of row " << i);
    REQUIRE(v[i].size() == w - 4, "row " << i << " has " << v[i].size() << " node values");
    for (int k = 0; k < w - 4; k++)
      REQUIRE(same(v[i](k), keep[i][4 + k]), "node value " << k << " of row " << i);
  }
  c.nontrivial(keep.size() < r.rows.size() || r.comments + r.blanks > 0);
  if (c.want_sample)
    c.sample << rname(r) << ", " << keep.size() << " with threads, " << w - 4 << " nodes";
}

PBT_PART(simulated_trajectory, 600, 40000, 400000) {
  SETUP;
  st.shortmin = 1;
  st.shortmax = 7;
  int n = t.range(0, 8), w = t.pick(std::vector<int>{8, 9, 20});
  save(path, text(t, st, n, [&](int) { return w; }, [&](int i, int k) { return k == 0 ? 100 + 0.05 * i : anyval(t); }, r));
  if (r.rows.empty()) {
    if (!t.flip(0.1))
      return;
    auto res = pbt::run_child([&]() {
      std::vector<VectorXd> v;
      DatasetReader::load_simulated_trajectory(path, v);
    });
    REQUIRE(!res.returned && res.status == EXIT_FAILURE, "file without data was not refused: " << res.status);
    c.label("refused");
    return;
  }
  std::vector<VectorXd> v;
  DatasetReader::load_simulated_trajectory(path, v);
  REQUIRE(v.size() == r.rows.size(), "loaded " << v.size() << " of " << rname(r));
  for (size_t i = 0; i < v.size(); i++) {
    REQUIRE(v[i].size() == 8, "row " << i << " has " << v[i].size() << " values");
    for (int k = 0; k < 8; k++)
      REQUIRE(same(v[i](k), r.rows[i][k]), "value " << k << " of row " << i << ": " << v[i](k) << " instead of " << r.rows[i][k]);
  }
  c.nontrivial(r.comments + r.blanks + r.shorts > 0);
  if (c.want_sample)
    c.sample << rname(r);
}

PBT_PART(groundtruth, 900, 40000, 400000) {
  SETUP;
  st.sep = ',';
  int n = t.range(0, 10), w = t.pick(std::vector<int>{17, 17, 17, 8, 11});
  double base = t.pick(std::vector<double>{1e9, 1403636579758555392.0});
  double dt = t.pick(std::vector<double>{5e6, 5e7, 2.5e8});
  std::string head = "#timestamp [ns], p_RS_R_x [m], p_RS_R_y [m], p_RS_R_z [m], q_RS_w [], ...\n", body;
  std::string eol = st.crlf ? "\r\n" : "\n";
  std::vector<double> at;
  double x = base;
  for (int i = 0; i < n; i++) {
    at.push_back(std::round(x / 256) * 256);
    x += dt * (t.flip(0.3) ? t.real(0.3, 5) : 1);
  }
  if (n > 1 && t.flip(0.2))
    std::swap(at[0], at[n - 1]); // rows need not be sorted
  for (int i = 0; i < n; i++) {
    junk(t, st, body, r, eol);
    std::vector<double> v(17, 0.0);
    v[0] = at[i];
    char b[64];
    snprintf(b, sizeof b, "%.0f", at[i]);
    body += b;
    for (int k = 1; k < w; k++) {
      body += t.flip(0.1) ? ", " : ",";
      body += num(t, anyval(t), v[k]);
    }
    body += eol;
    r.rows.push_back(v);
  }
  junk(t, st, body, r, eol);
  bool toolong = n > 0 && t.flip(0.05);
  if (toolong)
    body += "1,2,3,4,5,6,7,8,9,10,11,12,13,14,15,16,17,18" + eol;
  save(path, head + body);
  std::map<double, Eigen::Matrix<double, 17, 1>> gt;
  gt[5.0].setOnes(); // old content is dropped
  if (toolong) {
    if (!t.flip(0.2))
      return;
    auto res = pbt::run_child([&]() { DatasetReader::load_gt_file(path, gt); });
    REQUIRE(!res.returned && res.status == EXIT_FAILURE, "row with 18 values was not refused: " << res.status);
    c.label("refused");
    return;
  }
  DatasetReader::load_gt_file(path, gt);
  REQUIRE((int)gt.size() == n, "loaded " << gt.size() << " states of " << rname(r));
  auto rows = r.rows;
  std::sort(rows.begin(), rows.end(), [](const std::vector<double> &a, const std::vector<double> &b) { return a[0] < b[0]; });
  size_t i = 0;
  for (auto &e : gt) {
    double sec = rows[i][0] / 1e9;
    REQUIRE(std::fabs(e.first - sec) <= 4e-16 * sec, "time of state " << i << ": " << e.first << " instead of " << sec);
    for (int k = 1; k < 17; k++)
      REQUIRE(same(e.second(k), rows[i][k]), "value " << k << " of state " << i << ": " << e.second(k) << " instead of " << rows[i][k]);
    i++;
  }
  // look-ups
  int hits = 0, miss = 0;
  for (int q = 0; q < 4; q++) {
    double ts = n > 0 ? at[t.range(0, n - 1)] / 1e9 : 1.0;
    if (!t.flip(0.3))
      ts += t.flip() ? t.sym(0.2) : t.sym(0.03);
    int best = -1;
    double bd = INFINITY, second = INFINITY;
    for (size_t k = 0; k < rows.size(); k++) {
      double d = std::fabs(rows[k][0] / 1e9 - ts);
      if (d < bd) {
        second = bd;
        bd = d;
        best = (int)k;
      } else
        second = std::min(second, d);
    }
    if (n > 0 && (std::fabs(bd - 0.10) < 1e-6 || second - bd < 1e-6))
      continue;
    Eigen::Matrix<double, 17, 1> s;
    s.setConstant(-77);
    bool ok = DatasetReader::get_gt_state(ts, s, gt);
    REQUIRE(ok == (bd < 0.10), "state " << bd << " s away was " << (ok ? "returned" : "refused") << " (" << n << " states)");
    if (!ok) {
      miss++;
      continue;
    }
    hits++;
    auto &d = rows[best];
    int from[17] = {0, 5, 6, 7, 4, 1, 2, 3, 8, 9, 10, 11, 12, 13, 14, 15, 16};
    REQUIRE(std::fabs(s(0) - d[0] / 1e9) <= 4e-16 * d[0] / 1e9, "time of the state: " << s(0) << " instead of " << d[0] / 1e9 << ", asked for " << ts);
    for (int k = 1; k < 17; k++)
      REQUIRE(same(s(k), d[from[k]]), "component " << k << ": " << s(k) << " instead of " << d[from[k]]);
    REQUIRE((int)gt.size() == n, "the look-up changed the states");
  }
  c.nontrivial(hits > 0 && n > 1);
  c.label(hits ? miss ? "found and not found" : "found" : "not found");
  if (c.want_sample)
    c.sample << rname(r) << ", " << w << " fields, " << hits << " found, " << miss << " not found";
}

PBT_PART(convert, 600, 10000, 100000) {
  ov_core::Printer::setPrintLevel("SILENT");
  std::string dir = pbt::scratch_dir() + "/conv", path = dir + "/in.csv", out = dir + "/in.txt";
  boost::filesystem::remove_all(dir);
  boost::filesystem::create_directories(dir);
  Rows r;
  Style st;
  st.sep = ',';
  st.crlf = t.flip(0.15);
  st.shortmin = 1;
  st.shortmax = 7;
  int n = t.range(1, 8), w = t.pick(std::vector<int>{8, 17});
  double base = t.pick(std::vector<double>{0, 1403636579758555392.0});
  std::string s = text(t, st, n, [&](int) { return w; }, [&](int i, int k) { return k == 0 ? (base == 0 ? 5e7 * i : base) : k <= 3 ? anyval(t) : t.sym(1); }, r);
  save(path, "#timestamp, ...\n" + s);
  bool exists = t.flip(0.1), folder = t.flip(0.3);
  if (exists)
    save(out, "keep me");
  std::string arg = folder ? dir : path;
  char a0[] = "format_converter";
  std::vector<char> a1(arg.begin(), arg.end());
  a1.push_back(0);
  char *argv[] = {a0, a1.data(), nullptr};
  int so = dup(1), nul = open("/dev/null", O_WRONLY);
  fflush(stdout);
  std::cout.flush();
  dup2(nul, 1);
  int rc = format_converter_main(2, argv);
  fflush(stdout);
  std::cout.flush();
  dup2(so, 1);
  close(so);
  close(nul);
  ov_core::Printer::setPrintLevel("SILENT");
  REQUIRE(rc == 0, "converter returned " << rc);
  std::ifstream f(out);
  REQUIRE(f.is_open(), "no output file");
  if (exists) {
    std::stringstream ss;
    ss << f.rdbuf();
    REQUIRE(ss.str() == "keep me", "an existing file was overwritten");
    c.label("existing output kept");
    return;
  }
  std::vector<double> t1, t2;
  std::vector<Pose> p1, p2;
  std::vector<Eigen::Matrix3d> x, y;
  Loader::load_data_csv(path, t1, p1, x, y);
  Loader::load_data(out, t2, p2, x, y);
  REQUIRE(t1.size() == r.rows.size() && t2.size() == t1.size() && p2.size() == t1.size() && p1.size() == t1.size(),
          "csv loads " << t1.size() << " poses, converted file " << t2.size() << " of " << rname(r));
  for (size_t i = 0; i < t1.size(); i++) {
    pbt::near(c, t2[i], t1[i], 0.51e-5, "converted time");
    for (int k = 0; k < 7; k++)
      pbt::near(c, p2[i](k), p1[i](k), 0.51e-6 + 1e-12, "converted pose");
  }
  c.nontrivial(r.comments + r.blanks + r.shorts > 0 || n > 1);
  if (c.want_sample)
    c.sample << rname(r) << (folder ? ", folder" : ", file");
}

PBT_PART(missing, 50, 64, 640) {
  ov_core::Printer::setPrintLevel("SILENT");
  std::string p = pbt::scratch_dir() + "/does_not_exist.txt";
  int k = t.range(0, 6);
  std::vector<double> tm;
  std::vector<Pose> ps;
  std::vector<Eigen::Matrix3d> a, b;
  std::vector<Eigen::Vector3d> s;
  std::vector<VectorXd> v;
  std::vector<std::string> nm;
  std::map<double, Eigen::Matrix<double, 17, 1>> gt;
  auto res = pbt::run_child([&]() {
    if (k == 0)
      Loader::load_data(p, tm, ps, a, b);
    else if (k == 1)
      Loader::load_data_csv(p, tm, ps, a, b);
    else if (k == 2)
      Loader::load_simulation(p, v);
    else if (k == 3)
      Loader::load_timing_flamegraph(p, nm, tm, v);
    else if (k == 4)
      Loader::load_timing_percent(p, tm, s, v);
    else if (k == 5)
      DatasetReader::load_simulated_trajectory(p, v);
    else
      DatasetReader::load_gt_file(p, gt);
  });
  REQUIRE(!res.returned && res.status == EXIT_FAILURE, "loader " << k << " did not refuse a missing file: " << res.status);
  c.nontrivial();
  if (c.want_sample)
    c.sample << "loader " << k;
}
