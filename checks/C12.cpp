// C12: feature store against a plain map model over operation histories.
#include "pbt.h"
#include "vmath.h"
#include "feat/Feature.h"
#include "feat/FeatureDatabase.h"
#include <algorithm>
#include <memory>
#include <set>
using namespace ov_core;

struct Meas {
  double t;
  float u, v, un, vn;
};
struct FeatM {
  bool del = false;
  std::map<size_t, std::vector<Meas>> cams; // in insertion order
  bool sorted() const {
    for (auto &c : cams)
      for (size_t i = 1; i < c.second.size(); i++)
        if (c.second[i].t <= c.second[i - 1].t)
          return false;
    return true;
  }
  size_t count() const {
    size_t n = 0;
    for (auto &c : cams)
      n += c.second.size();
    return n;
  }
};
typedef std::map<size_t, FeatM> StoreM;

static bool has_time(const std::vector<Meas> &l, double t) {
  for (auto &x : l)
    if (x.t == t)
      return true;
  return false;
}

static void same_feature(const Feature &f, size_t id, const FeatM &m, const std::string &w, bool check_del = true) {
  REQUIRE(f.featid == id, "feature id " << f.featid << " expected " << id << " " << w);
  if (check_del)
    REQUIRE(f.to_delete == m.del, "deletion mark of feature " << id << " " << w);
  // cameras with an empty list are the same as an absent camera
  for (auto &kv : f.timestamps) {
    if (kv.second.empty())
      continue;
    REQUIRE(m.cams.count(kv.first) && !m.cams.at(kv.first).empty(), "feature " << id << " has measurements of camera " << kv.first << " it should not have " << w);
  }
  for (auto &kv : m.cams) {
    size_t cam = kv.first, n = kv.second.size();
    size_t nt = f.timestamps.count(cam) ? f.timestamps.at(cam).size() : 0, nu = f.uvs.count(cam) ? f.uvs.at(cam).size() : 0,
           nn = f.uvs_norm.count(cam) ? f.uvs_norm.at(cam).size() : 0;
    REQUIRE(nt == n && nu == n && nn == n, "feature " << id << " camera " << cam << " has " << nt << "/" << nu << "/" << nn
                                                      << " times/pixels/normalised, expected " << n << " " << w);
    for (size_t i = 0; i < n; i++) {
      const Meas &e = kv.second[i];
      REQUIRE(f.timestamps.at(cam)[i] == e.t, "time of measurement " << i << " of feature " << id << " " << w);
      REQUIRE(f.uvs.at(cam)[i].rows() == 2 && f.uvs.at(cam)[i](0) == e.u && f.uvs.at(cam)[i](1) == e.v, "pixel of measurement " << i << " " << w);
      REQUIRE(f.uvs_norm.at(cam)[i].rows() == 2 && f.uvs_norm.at(cam)[i](0) == e.un && f.uvs_norm.at(cam)[i](1) == e.vn,
              "normalised pixel of measurement " << i << " " << w);
    }
  }
}
static void same_store(FeatureDatabase &db, const StoreM &m, const std::string &w) {
  REQUIRE(db.size() == m.size(), "store size " << db.size() << " expected " << m.size() << " " << w);
  auto data = db.get_internal_data();
  REQUIRE(data.size() == m.size(), "store content size " << w);
  for (auto &kv : m) {
    REQUIRE(data.count(kv.first), "feature " << kv.first << " missing " << w);
    same_feature(*data.at(kv.first), kv.first, kv.second, w);
  }
}

PBT_PART(histories, 3000, 300000, 4000000) {
  std::shared_ptr<FeatureDatabase> dbs[2] = {std::make_shared<FeatureDatabase>(), std::make_shared<FeatureDatabase>()};
  StoreM ms[2];
  struct Taken {
    std::shared_ptr<Feature> f;
    size_t id;
    FeatM m;
  };
  std::vector<Taken> taken;
  int clock = 1;
  auto T = [](int k) { return 0.05 * k + 1.0; };
  int ops = t.range(1, 60);
  int removed = 0, trimmed = 0, queries_hit = 0, merges = 0;
  for (int k = 0; k < ops; k++) {
    int di = t.flip(0.25) ? 1 : 0;
    FeatureDatabase &db = *dbs[di];
    StoreM &m = ms[di];
    std::string w;
    int op = t.range(0, 15);
    auto gen_time = [&]() { // on, between, before or after the recorded times
      int q = t.range(0, clock + 1);
      double x = T(q);
      int r = t.range(0, 3);
      return r == 0 ? x : r == 1 ? x + 0.02 : r == 2 ? x - 0.02 : x;
    };
    if (op <= 5) { // a frame: some features observed in some cameras at a new time
      int n = t.range(1, 4);
      if (t.flip(0.6))
        clock++;
      for (int i = 0; i < n; i++) {
        size_t id = (size_t)t.range(1, 7), cam = (size_t)t.range(0, 2);
        Meas e{T(clock), (float)t.real(0, 700), (float)t.real(0, 400), (float)t.sym(1), (float)t.sym(1)};
        // a front-end never reports one feature twice in one image
        auto &list = m[id].cams[cam];
        if (has_time(list, e.t))
          continue;
        // both stores can be fed by the same front-end
        db.update_feature(id, e.t, cam, e.u, e.v, e.un, e.vn);
        list.push_back(e);
        if (t.flip(0.3)) {
          auto &l2 = ms[1 - di][id].cams[cam];
          if (!has_time(l2, e.t)) {
            dbs[1 - di]->update_feature(id, e.t, cam, e.u, e.v, e.un, e.vn);
            l2.push_back(e);
          }
        }
      }
      for (int d = 0; d < 2; d++)
        for (auto it = ms[d].begin(); it != ms[d].end();)
          if (it->second.count() == 0 && !dbs[d]->get_feature(it->first))
            it = ms[d].erase(it);
          else
            ++it;
      w = "after inserting";
      c.label("op:frame");
    } else if (op == 6) {
      size_t id = (size_t)t.range(1, 8);
      bool rem = t.flip();
      auto f = db.get_feature(id, rem);
      REQUIRE((f != nullptr) == (m.count(id) > 0), "looking up feature " << id);
      if (f) {
        same_feature(*f, id, m[id], "by lookup");
        Feature cp;
        if (!rem) {
          cp.to_delete = !m[id].del;
          REQUIRE(db.get_feature_clone(id, cp), "copy of a stored feature");
          same_feature(cp, id, m[id], "by copy");
          // the copy is independent
          for (auto &kv : cp.timestamps)
            kv.second.clear();
        } else {
          taken.push_back({f, id, m[id]});
          m.erase(id);
          removed++;
        }
      } else {
        Feature cp;
        REQUIRE(!db.get_feature_clone(id, cp), "copy of an absent feature");
      }
      w = "after lookup";
      c.label("op:lookup");
    } else if (op <= 9) { // the three queries
      double tm = gen_time();
      bool rem = t.flip(0.4), skip = t.flip(0.4);
      std::vector<std::shared_ptr<Feature>> r = op == 7   ? db.features_not_containing_newer(tm, rem, skip)
                                                : op == 8 ? db.features_containing_older(tm, rem, skip)
                                                          : db.features_containing(tm, rem, skip);
      std::map<size_t, std::shared_ptr<Feature>> got;
      for (auto &f : r) {
        REQUIRE(f != nullptr, "null feature returned");
        REQUIRE(!got.count(f->featid), "feature " << f->featid << " returned twice");
        got[f->featid] = f;
      }
      const char *nm = op == 7 ? "not-newer" : op == 8 ? "older" : "at-time";
      std::vector<size_t> ids;
      for (auto &kv : m)
        ids.push_back(kv.first);
      for (size_t id : ids) {
        const FeatM &f = m[id];
        bool match = op == 7;
        for (auto &cm : f.cams)
          for (auto &e : cm.second) {
            if (op == 7 && e.t >= tm)
              match = false;
            if (op == 8 && e.t < tm)
              match = true;
            if (op == 9 && e.t == tm)
              match = true;
          }
        if (skip && f.del)
          match = false;
        bool in = got.count(id) > 0;
        if (!f.sorted() && op != 9) // time order broken by an out-of-order merge: the query is defined on ordered tracks
          match = in;
        REQUIRE(in == match, nm << " query at " << tm << (skip ? " skipping deleted" : "") << ": feature " << id << (in ? " returned" : " not returned"));
        if (in) {
          queries_hit++;
          same_feature(*got[id], id, f, "in query result");
          if (rem) {
            taken.push_back({got[id], id, f});
            m.erase(id);
            removed++;
          }
        }
        got.erase(id);
      }
      REQUIRE(got.empty(), nm << " query returned an unknown feature");
      w = std::string("after query ") + nm;
      c.label(std::string("op:") + nm);
    } else if (op == 10) { // a consumer marks a feature as used
      size_t id = (size_t)t.range(1, 7);
      auto f = db.get_feature(id);
      if (f) {
        f->to_delete = true;
        m[id].del = true;
      }
      w = "after marking";
      c.label("op:mark");
    } else if (op == 11) {
      db.cleanup();
      for (auto it = m.begin(); it != m.end();)
        if (it->second.del) {
          it = m.erase(it);
          removed++;
        } else
          ++it;
      w = "after clean-up";
      c.label("op:cleanup");
    } else if (op <= 13) {
      double tm = gen_time();
      bool exact = op == 13;
      if (exact)
        db.cleanup_measurements_exact(tm);
      else
        db.cleanup_measurements(tm);
      for (auto it = m.begin(); it != m.end();) {
        for (auto &cm : it->second.cams) {
          auto &l = cm.second;
          size_t n0 = l.size();
          l.erase(std::remove_if(l.begin(), l.end(), [&](const Meas &e) { return exact ? e.t == tm : e.t <= tm; }), l.end());
          trimmed += (int)(n0 - l.size());
        }
        if (it->second.count() == 0)
          it = m.erase(it);
        else
          ++it;
      }
      w = exact ? "after trimming one time" : "after trimming old times";
      c.label(exact ? "op:trim-exact" : "op:trim-old");
    } else if (op == 14) { // per-feature trimming, as the update code does before using a track
      size_t id = (size_t)t.range(1, 7);
      auto f = db.get_feature(id);
      if (f) {
        std::vector<double> times;
        int n = t.range(0, 6);
        for (int i = 0; i < n; i++)
          times.push_back(T(t.range(0, clock + 1)));
        int kind = t.range(0, 2);
        double tm = gen_time();
        if (kind == 0)
          f->clean_old_measurements(times);
        else if (kind == 1)
          f->clean_invalid_measurements(times);
        else
          f->clean_older_measurements(tm);
        for (auto &cm : m[id].cams) {
          auto &l = cm.second;
          l.erase(std::remove_if(l.begin(), l.end(),
                                 [&](const Meas &e) {
                                   bool listed = std::find(times.begin(), times.end(), e.t) != times.end();
                                   return kind == 0 ? !listed : kind == 1 ? listed : e.t <= tm;
                                 }),
                  l.end());
        }
      }
      w = "after per-feature trimming";
      c.label("op:trim-feature");
    } else { // merge
      StoreM &o = ms[1 - di];
      db.append_new_measurements(dbs[1 - di]);
      for (auto &kv : o) {
        bool had = m.count(kv.first) > 0;
        FeatM &mine = m[kv.first];
        for (auto &cm : kv.second.cams)
          for (auto &e : cm.second) {
            auto &l = mine.cams[cm.first];
            bool present = false;
            for (auto &x : l)
              present = present || x.t == e.t;
            if (!present)
              l.push_back(e);
          }
        if (!had)
          mine.del = false;
      }
      merges++;
      w = "after merge";
      c.label("op:merge");
    }
    for (int d = 0; d < 2; d++)
      same_store(*dbs[d], ms[d], w);
    double oldest = -1;
    bool sorted = true;
    for (auto &kv : m) {
      sorted = sorted && kv.second.sorted();
      for (auto &cm : kv.second.cams)
        for (auto &e : cm.second)
          if (oldest == -1 || e.t < oldest)
            oldest = e.t;
    }
    if (sorted)
      REQUIRE(db.get_oldest_timestamp() == oldest, "oldest time " << db.get_oldest_timestamp() << " expected " << oldest << " " << w);
    for (auto &x : taken)
      same_feature(*x.f, x.id, x.m, "of a feature removed earlier");
  }
  c.nontrivial(removed > 0 && queries_hit > 0 && trimmed > 0);
  c.label(merges ? "with merge" : "no merge");
  if (c.want_sample)
    c.sample << ops << " operations, " << removed << " removals, " << queries_hit << " query hits, " << trimmed << " measurements trimmed, " << merges
             << " merges";
}
