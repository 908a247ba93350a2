// C28: summary statistics against their definitions, over histories of filling, recomputing, clearing and reusing.
#include "pbt.h"
#include "vmath.h"
#include "utils/Statistics.h"
#include <algorithm>
using ov_eval::Statistics;

struct Ref {
  long double rmse = 0, mean = 0, med = 0, sd = 0, mx = 0, mn = 0, p99 = 0, scale = 1;
};
static Ref ref(std::vector<double> v) {
  Ref r;
  size_t n = v.size();
  if (!n)
    return r;
  r.mx = *std::max_element(v.begin(), v.end());
  r.mn = *std::min_element(v.begin(), v.end());
  std::sort(v.begin(), v.end());
  r.med = n % 2 ? (long double)v[n / 2] : 0.5L * ((long double)v[n / 2 - 1] + v[n / 2]);
  for (double x : v) {
    r.mean += x;
    r.rmse += (long double)x * x;
    r.scale = std::max(r.scale, (long double)std::fabs(x));
  }
  r.mean /= n;
  r.rmse = std::sqrt(r.rmse / n);
  for (double x : v)
    r.sd += (x - r.mean) * (x - r.mean);
  r.sd = n > 1 ? std::sqrt(r.sd / (n - 1)) : 0;
  r.p99 = r.mean + 2.326L * r.sd;
  return r;
}
static void compare(pbt::Ctx &c, const Statistics &s, const std::vector<double> &v, const std::string &w) {
  Ref r = ref(v);
  double tol = 1e-11 * (double)r.scale;
  std::string n = "#" + w + " of " + std::to_string(v.size()) + " values";
  REQUIRE(s.values == v, "the values were changed " << w);
  pbt::near(c, s.mean, (double)r.mean, tol, "mean" + n);
  pbt::near(c, s.median, (double)r.med, tol, "median" + n);
  pbt::near(c, s.rmse, (double)r.rmse, tol, "root mean square" + n);
  pbt::near(c, s.min, (double)r.mn, 0 + 1e-300, "minimum" + n);
  pbt::near(c, s.max, (double)r.mx, 0 + 1e-300, "maximum" + n);
  // rounding of the mean enters squared below
  double sdtol = tol + 1e-7 * (r.sd < 1e-6 * r.scale ? (double)r.scale * 1e-3 : 0.0);
  pbt::near(c, s.std, (double)r.sd, sdtol, "standard deviation" + n);
  pbt::near(c, s.ninetynine, (double)r.p99, 3 * sdtol + tol, "99th percentile summary" + n);
}
static std::vector<double> gen(pbt::Tape &t, pbt::Ctx &c) {
  int n = t.flip(0.2) ? t.range(0, 3) : t.range(0, t.flip(0.2) ? 200 : 20);
  int kind = t.range(0, 5);
  double s = t.logreal(1e-3, 1e4), off = t.flip(0.3) ? t.sym(100) * s : 0;
  std::vector<double> v;
  for (int i = 0; i < n; i++) {
    double x = s * t.sym(1) + off;
    if (kind == 1)
      x = std::fabs(x);
    if (kind == 2)
      x = t.range(-3, 3);
    if (kind == 3)
      x = off;
    if (kind == 4 && t.flip(0.1))
      x *= 1e4;
    v.push_back(x);
  }
  if (kind == 5)
    std::sort(v.begin(), v.end());
  c.label(n == 0 ? "empty" : n == 1 ? "one value" : n % 2 ? "odd" : "even");
  return v;
}

PBT_PART(history, 1500, 400000, 5000000) {
  Statistics s;
  std::vector<double> model;
  int ops = t.range(1, 8), calcs = 0, reuse = 0;
  for (int k = 0; k < ops; k++) {
    int op = t.range(0, 5);
    if (op <= 1) {
      std::vector<double> v = gen(t, c);
      for (double x : v) {
        s.values.push_back(x);
        s.timestamps.push_back((double)model.size());
        model.push_back(x);
      }
      if (v.empty() && !model.empty())
        continue;
    } else if (op == 2) {
      s.clear();
      model.clear();
      reuse++;
      REQUIRE(s.values.empty() && s.timestamps.empty() && s.values_bound.empty(), "clear left entries");
    } else if (op == 3) { // another order of the same values
      for (size_t i = model.size(); i > 1; i--)
        std::swap(model[i - 1], model[(size_t)t.range(0, (int)i - 1)]);
      s.values = model;
    } else if (op == 4 && calcs) { // recomputed without change
      s.calculate();
    }
    s.calculate();
    calcs++;
    compare(c, s, model, "after " + std::to_string(calcs) + " computations");
    // a fresh object over the same values gives the same summary
    Statistics f;
    f.values = model;
    f.calculate();
    REQUIRE(f.mean == s.mean && f.rmse == s.rmse && f.std == s.std && f.median == s.median && f.min == s.min && f.max == s.max && f.ninetynine == s.ninetynine,
            "a reused object gives another summary than a fresh one");
  }
  c.nontrivial(model.size() > 1 && calcs > 1);
  c.label(reuse ? "cleared and reused" : "not cleared");
  if (c.want_sample)
    c.sample << ops << " operations, " << calcs << " computations, " << reuse << " clears, finally " << model.size() << " values";
}
