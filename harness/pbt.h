// Property-based testing core shared by every check.
//
// A case is a "choice tape" (a vector of 32-bit words) generated and shrunk by rapidcheck; every random
// choice of a case is decoded from that tape, so a case is replayed by decoding the same words again.
// A word of 0 always decodes to the simplest choice, and an exhausted tape yields zeros.
#ifndef VERIF_PBT_H
#define VERIF_PBT_H
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <functional>
#include <map>
#include <sstream>
#include <stdexcept>
#include <string>
#include <vector>

namespace pbt {

struct Fail : public std::runtime_error {
  std::string key;
  explicit Fail(const std::string &m, const std::string &k = "") : std::runtime_error(m), key(k) {}
};
/// The case could not be set up for a reason that is not the property's (counted; must stay rare).
struct Discard : public std::runtime_error {
  explicit Discard(const std::string &m) : std::runtime_error(m) {}
};

class Tape {
public:
  explicit Tape(const std::vector<uint32_t> &w) : words(w) {}
  uint32_t u32() { return pos < words.size() ? words[pos++] : (pos++, 0u); }
  /// integer in [lo,hi], 0-word -> lo
  int range(int lo, int hi) {
    uint64_t n = (uint64_t)((int64_t)hi - (int64_t)lo + 1);
    return (int)(lo + (int64_t)(((uint64_t)u32() * n) >> 32));
  }
  bool flip(double p_true = 0.5) { return unit() > 1.0 - p_true; }
  /// real in [0,1), 0-word -> 0
  double unit() { return (double)u32() / 4294967296.0; }
  /// real in [a,b), 0-word -> a
  double real(double a, double b) { return a + (b - a) * unit(); }
  /// symmetric real in (-m,m), 0-word -> 0
  double sym(double m) {
    uint32_t w = u32();
    double x = (double)(w >> 1) / 2147483648.0;
    return (w & 1) ? -m * x : m * x;
  }
  /// log-uniform in [a,b], 0-word -> a
  double logreal(double a, double b) { return a * std::exp(unit() * std::log(b / a)); }
  /// approximately standard normal; 0-words -> 0
  double gauss() {
    double s = 0;
    for (int i = 0; i < 4; i++)
      s += sym(1.0);
    return s * std::sqrt(3.0 / 4.0);
  }
  template <typename T> const T &pick(const std::vector<T> &v) { return v[(size_t)range(0, (int)v.size() - 1)]; }
  size_t used() const { return pos; }

private:
  const std::vector<uint32_t> &words;
  size_t pos = 0;
};

/// Per-case report.
class Ctx {
public:
  void label(const std::string &l) { labels.push_back(l); }
  void nontrivial(bool b = true) { nontriv = nontriv || b; }
  /// sets the printed form of the case (only evaluated lazily by the caller if wanted)
  bool want_sample = false;
  std::ostringstream sample;
  /// records the largest value seen of some measured quantity (e.g. error as fraction of tolerance)
  void metric(const std::string &n, double v) {
    auto it = metrics.find(n);
    if (it == metrics.end() || !(it->second >= v))
      metrics[n] = v;
  }
  std::vector<std::string> labels;
  bool nontriv = false;
  std::map<std::string, double> metrics;
};

typedef std::function<void(Tape &, Ctx &)> CaseFn;
struct Part {
  std::string name;
  size_t tape_len;
  int quick, thorough; // total number of cases over all shards
  CaseFn fn;
};
void add_part(const std::string &name, size_t tape_len, int quick, int thorough, CaseFn fn);
struct Register {
  Register(const std::string &name, size_t tape_len, int quick, int thorough, CaseFn fn) {
    add_part(name, tape_len, quick, thorough, fn);
  }
};
bool thorough(); ///< are we in the thorough tier
std::string scratch_dir(); ///< private scratch directory of this process, created and removed by the runner

#define PBT_CAT2(a, b) a##b
#define PBT_CAT(a, b) PBT_CAT2(a, b)
#define PBT_PART(name, tape_len, quick, thor)                                                                                             \
  static void PBT_CAT(pbt_fn_, name)(pbt::Tape & t, pbt::Ctx & c);                                                                        \
  static pbt::Register PBT_CAT(pbt_reg_, name)(#name, tape_len, quick, thor, PBT_CAT(pbt_fn_, name));                                     \
  static void PBT_CAT(pbt_fn_, name)(pbt::Tape & t, pbt::Ctx & c)

#define REQUIRE(cond, msg)                                                                                                                \
  do {                                                                                                                                    \
    if (!(cond)) {                                                                                                                        \
      std::ostringstream pbt_os;                                                                                                          \
      pbt_os.precision(12);                                                                                                               \
      pbt_os << #cond << " : " << msg;                                                                                                    \
      throw pbt::Fail(pbt_os.str());                                                                                                      \
    }                                                                                                                                     \
  } while (0)
#define REQUIRE_KEY(cond, key, msg)                                                                                                       \
  do {                                                                                                                                    \
    if (!(cond)) {                                                                                                                        \
      std::ostringstream pbt_os;                                                                                                          \
      pbt_os.precision(12);                                                                                                               \
      pbt_os << #cond << " : " << msg;                                                                                                    \
      throw pbt::Fail(pbt_os.str(), key);                                                                                                 \
    }                                                                                                                                     \
  } while (0)

/// |a-b| <= tol (false for non-finite), recording the used fraction of the tolerance
inline void near(Ctx &c, double a, double b, double tol, const std::string &what) {
  double e = std::fabs(a - b);
  c.metric("frac_tol:" + what.substr(0, what.find('#')), e / tol);
  if (!(e <= tol)) {
    std::ostringstream os;
    os.precision(12);
    os << what << ": got " << a << " expected " << b << " |diff| " << e << " > tol " << tol;
    throw Fail(os.str());
  }
}

template <typename A, typename B> void near_mat(Ctx &c, const A &a, const B &b, double tol, const std::string &what) {
  if (a.rows() != b.rows() || a.cols() != b.cols()) {
    std::ostringstream os;
    os << what << ": size " << a.rows() << "x" << a.cols() << " expected " << b.rows() << "x" << b.cols();
    throw Fail(os.str());
  }
  double worst = 0;
  long wi = 0, wj = 0;
  for (long i = 0; i < a.rows(); i++)
    for (long j = 0; j < a.cols(); j++) {
      double e = std::fabs((double)a(i, j) - (double)b(i, j));
      if (!(e <= worst)) {
        worst = e;
        wi = i;
        wj = j;
        if (!(e <= tol))
          break;
      }
    }
  c.metric("frac_tol:" + what.substr(0, what.find('#')), worst / tol);
  if (!(worst <= tol)) {
    std::ostringstream os;
    os.precision(12);
    os << what << ": entry (" << wi << "," << wj << ") got " << a(wi, wj) << " expected " << b(wi, wj) << " |diff| " << worst << " > tol "
       << tol;
    throw Fail(os.str());
  }
}

} // namespace pbt
#endif
