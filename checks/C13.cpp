// C13: disparity statistics against a direct recomputation.
#include "pbt.h"
#include "vmath.h"
#include "feat/FeatureHelper.h"
#include <memory>
using namespace ov_core;

struct Meas {
  double t;
  float u, v;
};

PBT_PART(disparity, 2000, 1000000, 10000000) {
  auto db = std::make_shared<FeatureDatabase>();
  std::map<size_t, std::map<size_t, std::vector<Meas>>> m;
  int nf = t.range(0, 1 + (t.flip(0.3) ? 1 : 20)), ncam = t.range(1, 3), nt = t.range(1, 8);
  auto T = [](int k) { return 2.0 + 0.1 * k; };
  for (int f = 0; f < nf; f++)
    for (int cam = 0; cam < ncam; cam++) {
      double p = t.real(0.1, 1.0);
      for (int k = 0; k < nt; k++)
        if (t.unit() < p) {
          Meas e{T(k), (float)t.real(0, 700), (float)t.real(0, 500)};
          db->update_feature((size_t)f + 5, e.t, (size_t)cam, e.u, e.v, e.u / 400, e.v / 400);
          m[(size_t)f][(size_t)cam].push_back(e);
        }
    }
  auto expect = [&](const std::vector<double> &d, double mean, double var, int tot, const std::string &w) {
    if (d.size() < 2) {
      c.label(d.empty() ? "no displacement" : "one displacement");
      REQUIRE(mean == -1 && var == -1 && tot == 0, w << " of " << d.size() << " displacements gives " << mean << ", " << var << ", " << tot);
      return;
    }
    double s = 0;
    for (double x : d)
      s += x;
    s /= (double)d.size();
    double q = 0;
    for (double x : d)
      q += (x - s) * (x - s);
    q = std::sqrt(q / (double)(d.size() - 1));
    REQUIRE(tot == (int)d.size(), w << " counts " << tot << " expected " << d.size());
    pbt::near(c, mean, s, 1e-3, "mean#" + w);
    pbt::near(c, var, q, 1e-3, "deviation#" + w);
    c.nontrivial();
    c.label("two or more displacements");
  };
  double mean = 77, var = 77;
  int tot = 77;
  // between two frames
  double t0 = T(t.range(0, nt)), t1 = T(t.range(0, nt));
  if (t.flip(0.1))
    t1 += 0.05;
  std::vector<double> d;
  for (auto &f : m)
    for (auto &cm : f.second) {
      const Meas *a = nullptr, *b = nullptr;
      for (auto &e : cm.second) {
        if (e.t == t0)
          a = &e;
        if (e.t == t1)
          b = &e;
      }
      if (a && b)
        d.push_back(std::hypot((double)a->u - b->u, (double)a->v - b->v));
    }
  FeatureHelper::compute_disparity(db, t0, t1, mean, var, tot);
  expect(d, mean, var, tot, "two-frame disparity");
  // over whole tracks, inside (oldest, newest)
  double oldest = t.flip(0.5) ? -1 : T(t.range(-1, nt)), newest = t.flip(0.5) ? -1 : T(t.range(-1, nt + 1));
  if (oldest != -1 && t.flip(0.3))
    oldest += 0.05;
  d.clear();
  for (auto &f : m)
    for (auto &cm : f.second) {
      std::vector<Meas> in;
      for (auto &e : cm.second)
        if ((oldest == -1 || e.t > oldest) && (newest == -1 || e.t < newest))
          in.push_back(e);
      if (in.size() >= 2)
        d.push_back(std::hypot((double)in.back().u - in.front().u, (double)in.back().v - in.front().v));
    }
  mean = var = 77;
  tot = 77;
  FeatureHelper::compute_disparity(db, mean, var, tot, newest, oldest);
  expect(d, mean, var, tot, "track disparity");
  c.label(oldest == -1 ? "no lower bound" : "lower bound");
  c.label(newest == -1 ? "no upper bound" : "upper bound");
  if (c.want_sample)
    c.sample << nf << " features, " << ncam << " cameras, " << nt << " times, frames " << t0 << "/" << t1 << ", bounds " << oldest << ".." << newest;
}
