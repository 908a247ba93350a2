// C04: selection of inertial readings for an interval, by the propagator and by the initialiser, and removal of old readings.
#include "pbt.h"
#include "vmath.h"
#include "state/Propagator.h"
#include "utils/print.h"
#include "utils/helper.h"
#include <algorithm>
using namespace vm;
using ov_core::ImuData;
typedef std::vector<ImuData> Stream;

static bool same(const ImuData &a, const ImuData &b) { return a.timestamp == b.timestamp && a.wm == b.wm && a.am == b.am; }
static bool same(const Stream &a, const Stream &b) {
  if (a.size() != b.size())
    return false;
  for (size_t i = 0; i < a.size(); i++)
    if (!same(a[i], b[i]))
      return false;
  return true;
}
static Stream gen_stream(pbt::Tape &t, pbt::Ctx &c, double maxgap) {
  Stream s;
  int n = t.range(2, t.flip(0.2) ? 120 : 25);
  double tm = t.pick(std::vector<double>{10.0, 1.0, 200.0, 1403636579.75, 0.5});
  double per = t.pick(std::vector<double>{0.005, 0.01, 0.0025, 0.02, 0.05});
  int kind = t.range(0, 3);
  bool big = t.flip(0.1);
  for (int i = 0; i < n; i++) {
    ImuData d;
    d.timestamp = tm;
    d.wm = gen_vec(t, 3);
    d.am = gen_vec(t, 20);
    s.push_back(d);
    if (kind == 1 || kind == 3) // jitter
      tm += per * t.real(0.2, 1.8);
    else
      tm += per;
    if (kind >= 2) {
      if (t.flip(0.1)) { // dropped readings
        tm += std::min(maxgap - 2 * per, per * t.range(1, 30));
        c.label("dropped readings");
      } else if (t.flip(0.1)) { // repeated time with another value
        tm = s.back().timestamp;
        c.label("duplicated readings");
      }
    }
  }
  if (big)
    c.label("long stream");
  return s;
}
// candidates for "the reading at time x" with duplicates, and linear interpolation otherwise
static void check_end(const Stream &s, const ImuData &d, double x, const std::string &w, double &exact) {
  REQUIRE(d.timestamp == x, w << " is at " << d.timestamp << " expected " << x << " (difference " << d.timestamp - x << ")");
  bool stored = false;
  for (auto &r : s)
    if (r.timestamp == x) {
      stored = true;
      if ((r.wm - d.wm).norm() <= 1e-12 * (1 + r.wm.norm()) && (r.am - d.am).norm() <= 1e-12 * (1 + r.am.norm())) {
        exact += 1;
        return;
      }
    }
  REQUIRE(!stored, w << " does not have the value of the reading stored at that time");
  // neighbours: last time before, first time after (any of the duplicates)
  double tb = -1e300, ta = 1e300;
  for (auto &r : s) {
    if (r.timestamp < x)
      tb = std::max(tb, r.timestamp);
    if (r.timestamp > x)
      ta = std::min(ta, r.timestamp);
  }
  double lam = (x - tb) / (ta - tb);
  double best = 1e300;
  for (auto &b : s)
    if (b.timestamp == tb)
      for (auto &a : s)
        if (a.timestamp == ta) {
          Vector3d w1 = b.wm + lam * (a.wm - b.wm), a1 = b.am + lam * (a.am - b.am);
          best = std::min(best, std::max((w1 - d.wm).norm(), (a1 - d.am).norm()));
        }
  REQUIRE(best <= 1e-9, w << " is not the linear interpolation of its neighbours, off by " << best);
}
static void check_selection(const Stream &s, const Stream &o, double t0, double t1, const std::string &who, double &exact) {
  REQUIRE(o.size() >= 2, who << " chose " << o.size() << " readings for [" << t0 << "," << t1 << "]");
  for (size_t i = 1; i < o.size(); i++)
    REQUIRE(o[i].timestamp > o[i - 1].timestamp, who << ": times not strictly increasing at " << i << " of " << o.size() << ": " << o[i - 1].timestamp << " then "
                                                    << o[i].timestamp);
  check_end(s, o.front(), t0, who + ": first reading", exact);
  check_end(s, o.back(), t1, who + ": last reading", exact);
  // every stored time strictly inside, unchanged
  size_t k = 1;
  for (size_t i = 0; i < s.size();) {
    size_t j = i;
    while (j < s.size() && s[j].timestamp == s[i].timestamp)
      j++;
    if (s[i].timestamp > t0 && s[i].timestamp < t1) {
      REQUIRE(k + 1 < o.size() && o[k].timestamp == s[i].timestamp, who << ": stored reading at " << s[i].timestamp << " is missing");
      bool ok = false;
      for (size_t q = i; q < j; q++)
        ok = ok || same(s[q], o[k]);
      REQUIRE(ok, who << ": reading at " << s[i].timestamp << " was changed");
      k++;
    }
    i = j;
  }
  REQUIRE(k + 1 == o.size(), who << ": " << o.size() - 1 - k << " extra readings");
}
static double gen_time(pbt::Tape &t, const Stream &s) {
  int i = t.range(0, (int)s.size() - 1);
  double a = s[i].timestamp;
  double x = a;
  if (t.flip(0.6) && i + 1 < (int)s.size()) {
    double b = s[i + 1].timestamp;
    x = a + (b - a) * t.real(0, 1);
    if (t.flip(0.1))
      x = std::nextafter(t.flip() ? a : b, t.flip() ? 0.0 : 1e300);
    if (std::fabs(x - a) < 2e-12 && x != a) // closer than the resolution the code works at
      x = a;
    if (std::fabs(x - b) < 2e-12 && x != b)
      x = b;
  }
  return std::min(std::max(x, s.front().timestamp), s.back().timestamp);
}

PBT_PART(select, 1200, 1200000, 12000000) {
  ov_core::Printer::setPrintLevel("SILENT");
  Stream s = gen_stream(t, c, 1e9);
  double a = gen_time(t, s), b = gen_time(t, s);
  int pk = t.range(0, 5);
  if (pk == 1)
    b = s.back().timestamp;
  if (pk == 2)
    a = s.front().timestamp;
  if (a > b)
    std::swap(a, b);
  if (!(b - a > 1e-9)) {
    c.label("empty interval");
    return;
  }
  Stream copy = s;
  double exact = 0, e2 = 0;
  Stream o = ov_msckf::Propagator::select_imu_readings(s, a, b, t.flip());
  REQUIRE(same(copy, s), "the stream was modified");
  check_selection(s, o, a, b, "propagator", exact);
  Stream o2 = ov_init::InitializerHelper::select_imu_readings(s, a, b);
  REQUIRE(same(copy, s), "the stream was modified");
  check_selection(s, o2, a, b, "initialiser", e2);
  // equivalent choice
  REQUIRE(o.size() == o2.size(), "propagator chose " << o.size() << " and initialiser " << o2.size() << " readings");
  for (size_t i = 0; i < o.size(); i++)
    REQUIRE(o[i].timestamp == o2[i].timestamp && (o[i].wm - o2[i].wm).norm() < 1e-11 && (o[i].am - o2[i].am).norm() < 1e-11, "propagator and initialiser differ at reading " << i);
  // consecutive intervals share their boundary
  double m = 0.5 * (a + b);
  bool near_reading = false;
  for (auto &r : s)
    near_reading = near_reading || (r.timestamp != m && std::fabs(r.timestamp - m) < 2e-12);
  if (m > a + 1e-9 && m < b - 1e-9 && !near_reading) {
    Stream l = ov_msckf::Propagator::select_imu_readings(s, a, m, false), r = ov_msckf::Propagator::select_imu_readings(s, m, b, false);
    REQUIRE(l.size() >= 2 && r.size() >= 2, "halves of the interval");
    REQUIRE(l.back().timestamp == r.front().timestamp && (l.back().wm - r.front().wm).norm() < 1e-11, "boundary of consecutive intervals differs");
  }
  c.nontrivial(o.size() >= 3);
  c.label(exact == 2 ? "both ends on readings" : exact == 1 ? "one end on a reading" : "both ends between readings");
  c.label(b == s.back().timestamp ? "ends at newest reading" : "ends inside");
  if (c.want_sample)
    c.sample << s.size() << " readings over " << s.back().timestamp - s.front().timestamp << " s, interval of " << b - a << " s -> " << o.size() << " chosen";
}

struct OpenPropagator : public ov_msckf::Propagator {
  explicit OpenPropagator() : ov_msckf::Propagator(ov_msckf::NoiseManager(), 9.81) {}
  const Stream &stream() { return imu_data; }
};

PBT_PART(discard, 1500, 240000, 3000000) {
  ov_core::Printer::setPrintLevel("SILENT");
  Stream s = gen_stream(t, c, 0.099), full;
  OpenPropagator p;
  double oldest = -1, span = 0;
  int cleans = 0;
  for (size_t i = 0; i < s.size(); i++) {
    double old = -1;
    if (t.flip(0.5) && i > 1) {
      // the oldest pose still needed never moves backwards and is not ahead of the readings
      double lo = std::max(oldest, s.front().timestamp), hi = s[i].timestamp;
      old = lo + (hi - lo) * t.unit();
      oldest = old;
      cleans++;
    }
    if (t.flip(0.1))
      p.clean_old_imu_measurements(std::max(0.0, oldest - 0.1));
    p.feed_imu(s[i], old);
    full.push_back(s[i]);
    REQUIRE(p.stream().size() <= full.size(), "more readings than were fed");
    REQUIRE(same(p.stream().back(), s[i]), "newest reading not stored");
    // what is kept is an unchanged tail of the stream
    size_t off = full.size() - p.stream().size();
    for (size_t k = 0; k < p.stream().size(); k++)
      REQUIRE(same(p.stream()[k], full[off + k]), "stored reading " << k << " changed or reordered");
    // never kept forever
    if (old > 0)
      REQUIRE(p.stream().front().timestamp >= old - 0.6 || p.stream().size() <= 2, "reading at " << p.stream().front().timestamp << " kept although only " << old << " on is needed");
  }
  // any later interval is served as if nothing had been removed
  double lo = oldest < 0 ? s.front().timestamp : oldest, hi = s.back().timestamp;
  for (int k = 0; k < 3; k++) {
    double a = lo + (hi - lo) * t.unit(), b = a + (hi - a) * t.unit();
    if (k == 0)
      a = lo;
    if (!(b - a > 1e-9))
      continue;
    bool skip = false;
    for (auto &r : s)
      skip = skip || (std::fabs(r.timestamp - a) < 2e-12 && r.timestamp != a) || (std::fabs(r.timestamp - b) < 2e-12 && r.timestamp != b);
    if (skip)
      continue;
    Stream x = ov_msckf::Propagator::select_imu_readings(p.stream(), a, b, false), y = ov_msckf::Propagator::select_imu_readings(full, a, b, false);
    REQUIRE(same(x, y), "interval [" << a << "," << b << "] is served differently (" << x.size() << " instead of " << y.size() << " readings) after old readings were discarded before " << oldest);
    span = std::max(span, b - a);
    double e = 0;
    check_selection(full, y, a, b, "propagator", e);
  }
  c.nontrivial(cleans > 0 && p.stream().size() < full.size());
  c.label(p.stream().size() < full.size() ? "some discarded" : "none discarded");
  if (c.want_sample)
    c.sample << s.size() << " readings fed with " << cleans << " limits, " << p.stream().size() << " kept, longest interval " << span << " s";
}
