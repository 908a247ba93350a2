// Driver of the property-based checks: rapidcheck generates and shrinks choice tapes, this file runs the
// registered case functions on them, counts what was covered and writes a shard report.
#include "pbt.h"
#include <chrono>
#include <cstdlib>
#include <cstring>
#include <fcntl.h>
#include <fstream>
#include <iostream>
#include <rapidcheck.h>
#include <set>
#include <sys/mman.h>
#include <sys/stat.h>
#include <unistd.h>
#include <unordered_set>

typedef std::vector<uint32_t> Words;
struct TapeValue {
  Words w;
};
static std::ostream &operator<<(std::ostream &os, const TapeValue &t) { return os << "tape[" << t.w.size() << "]"; }

namespace pbt {
static std::vector<Part> &parts() {
  static std::vector<Part> p;
  return p;
}
void add_part(const std::string &name, size_t tape_len, int quick, int thor, CaseFn fn) {
  parts().push_back(Part{name, tape_len, quick, thor, fn});
}
static bool g_thorough = false;
static std::string g_scratch = "/tmp";
bool thorough() { return g_thorough; }
std::string scratch_dir() { return g_scratch; }
} // namespace pbt
using namespace pbt;

static uint64_t splitmix(uint64_t &s) {
  uint64_t z = (s += 0x9E3779B97F4A7C15ULL);
  z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ULL;
  z = (z ^ (z >> 27)) * 0x94D049BB133111EBULL;
  return z ^ (z >> 31);
}

// the tape of the case being executed, in a shared mapping so that it survives a crash
static uint32_t *g_cur = nullptr;
static size_t g_cur_cap = 1 << 16;
static void open_current(const std::string &path) {
  int fd = open(path.c_str(), O_RDWR | O_CREAT | O_TRUNC, 0644);
  if (fd < 0 || ftruncate(fd, (off_t)(4 * g_cur_cap)) != 0) {
    perror("current");
    exit(3);
  }
  g_cur = (uint32_t *)mmap(nullptr, 4 * g_cur_cap, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
  close(fd);
}
static void set_current(int part, const Words &w) {
  if (!g_cur)
    return;
  size_t n = std::min(w.size(), g_cur_cap - 3);
  g_cur[1] = (uint32_t)part;
  g_cur[2] = (uint32_t)n;
  memcpy(g_cur + 3, w.data(), 4 * n);
  g_cur[0] = 1; // running
}
static void clear_current() {
  if (g_cur)
    g_cur[0] = 0;
}

static std::string json_str(const std::string &s) {
  std::string o = "\"";
  for (unsigned char ch : s) {
    if (ch == '"' || ch == '\\') {
      o += '\\';
      o += (char)ch;
    } else if (ch == '\n')
      o += "\\n";
    else if (ch < 32 || ch > 126)
      o += '?';
    else
      o += (char)ch;
  }
  return o + "\"";
}
static std::string json_num(double v) {
  if (!std::isfinite(v))
    return "1e308";
  char b[64];
  snprintf(b, sizeof b, "%.6g", v);
  return b;
}

static TapeValue apply_shrink(const TapeValue &t, int op, size_t a, size_t n) {
  TapeValue r = t;
  switch (op) {
  case 0: // truncate to a
    r.w.resize(a);
    break;
  case 1: // delete block
    r.w.erase(r.w.begin() + (long)a, r.w.begin() + (long)(a + n));
    break;
  case 2: // zero block
    std::fill(r.w.begin() + (long)a, r.w.begin() + (long)(a + n), 0u);
    break;
  case 3:
    r.w[a] /= 2;
    break;
  case 4: // coarser value
    r.w[a] &= 0xFFF00000u;
    break;
  }
  return r;
}
struct Cand {
  int op;
  size_t a, n;
};
static rc::Seq<TapeValue> shrink_tape(const TapeValue &t) {
  auto cands = std::make_shared<std::vector<Cand>>();
  size_t n = t.w.size();
  for (size_t k = 1; k < n; k = k * 2)
    cands->push_back({0, n - std::max<size_t>(1, n / (2 * k) * 1), 0});
  for (size_t b = std::max<size_t>(1, n / 2); b >= 1; b /= 2) {
    for (size_t i = 0; i + b <= n; i += b) {
      bool allzero = true;
      for (size_t j = i; j < i + b; j++)
        allzero = allzero && t.w[j] == 0;
      if (!allzero)
        cands->push_back({2, i, b});
      cands->push_back({1, i, b});
    }
    if (b == 1)
      break;
  }
  for (size_t i = 0; i < n; i++)
    if (t.w[i] != 0) {
      if ((t.w[i] & 0xFFF00000u) != t.w[i])
        cands->push_back({4, i, 0});
      else
        cands->push_back({3, i, 0});
    }
  auto base = std::make_shared<TapeValue>(t);
  return rc::seq::map(rc::seq::range<size_t>(0, cands->size()), [cands, base](size_t k) {
    const Cand &c = (*cands)[k];
    return apply_shrink(*base, c.op, c.a, c.n);
  });
}
static rc::Gen<TapeValue> gen_tape(size_t len) {
  return rc::Gen<TapeValue>([len](const rc::Random &r0, int) {
    rc::Random r = r0;
    TapeValue t;
    t.w.resize(len);
    for (size_t i = 0; i < len; i += 2) {
      uint64_t x = r.next();
      t.w[i] = (uint32_t)x;
      if (i + 1 < len)
        t.w[i + 1] = (uint32_t)(x >> 32);
    }
    return rc::shrinkable::shrinkRecur(std::move(t), [](const TapeValue &v) { return shrink_tape(v); });
  });
}

struct PartStats {
  long evaluations = 0, nontrivial = 0, discards = 0, known = 0;
  std::unordered_set<uint64_t> distinct;
  std::map<std::string, long> labels;
  std::map<std::string, double> metrics;
  std::vector<std::string> samples;
  std::map<std::string, long> known_keys;
  double seconds = 0;
};

static std::set<std::string> g_known;

// returns true if ok; message set on failure
static bool run_case(const Part &p, int idx, const Words &w, PartStats *st, std::string &msg, std::string &key, size_t *used = nullptr) {
  Ctx c;
  c.want_sample = st && (st->samples.size() < 2 || (st->samples.size() < 4 && st->evaluations % 97 == 0));
  Tape t(w);
  set_current(idx, w);
  bool ok = true, disc = false, known = false;
  try {
    p.fn(t, c);
  } catch (const Discard &d) {
    disc = true;
    msg = d.what();
    c.label(std::string("discard:") + d.what());
  } catch (const Fail &f) {
    msg = f.what();
    key = f.key;
    if (!f.key.empty() && g_known.count(f.key))
      known = true;
    else
      ok = false;
  } catch (const std::exception &e) {
    msg = std::string("unexpected exception: ") + e.what();
    ok = false;
  }
  clear_current();
  if (used)
    *used = t.used();
  if (st) {
    st->evaluations++;
    if (disc)
      st->discards++;
    if (known) {
      st->known++;
      st->known_keys[key]++;
    }
    for (auto &l : c.labels)
      st->labels[l]++;
    for (auto &m : c.metrics) {
      auto it = st->metrics.find(m.first);
      if (it == st->metrics.end() || !(it->second >= m.second))
        st->metrics[m.first] = m.second;
    }
    if (c.nontriv && !disc && !known) {
      uint64_t h = 1469598103934665603ULL;
      for (size_t i = 0; i < std::min(t.used(), w.size()); i++)
        h = (h ^ w[i]) * 1099511628211ULL;
      if (st->distinct.insert(h).second)
        st->nontrivial++;
      if (c.want_sample && c.sample.tellp() > 0)
        st->samples.push_back(c.sample.str());
    }
  }
  return ok;
}

static int do_replay(const std::string &file, const std::string &cur) {
  std::ifstream in(file);
  std::string line, part;
  Words w;
  while (std::getline(in, line)) {
    if (line.rfind("part ", 0) == 0)
      part = line.substr(5);
    else if (line.rfind("tape", 0) == 0) {
      std::istringstream is(line.substr(4));
      uint32_t x;
      while (is >> x)
        w.push_back(x);
    }
  }
  if (!cur.empty())
    open_current(cur);
  for (size_t i = 0; i < parts().size(); i++)
    if (parts()[i].name == part) {
      std::string msg, key;
      if (run_case(parts()[i], (int)i, w, nullptr, msg, key)) {
        printf("REPLAY ok part=%s %s\n", part.c_str(), msg.c_str());
        fflush(stdout);
        _exit(0);
      }
      printf("REPLAY fail part=%s key=%s : %s\n", part.c_str(), key.c_str(), msg.c_str());
      fflush(stdout);
      _exit(1);
    }
  fprintf(stderr, "unknown part '%s'\n", part.c_str());
  return 3;
}

int main(int argc, char **argv) {
  std::string out, cur, replay, only;
  uint64_t seed = 1;
  int shard = 0, shards = 1;
  double scale = 1.0;
  for (int i = 1; i < argc; i++) {
    std::string a = argv[i];
    auto nxt = [&]() { return std::string(argv[++i]); };
    if (a == "--out")
      out = nxt();
    else if (a == "--current")
      cur = nxt();
    else if (a == "--replay")
      replay = nxt();
    else if (a == "--seed")
      seed = strtoull(nxt().c_str(), nullptr, 10);
    else if (a == "--shard")
      shard = atoi(nxt().c_str());
    else if (a == "--shards")
      shards = atoi(nxt().c_str());
    else if (a == "--scale")
      scale = atof(nxt().c_str());
    else if (a == "--only")
      only = nxt();
    else if (a == "--thorough")
      g_thorough = true;
    else if (a == "--scratch")
      g_scratch = nxt();
    else if (a == "--known") {
      std::istringstream is(nxt());
      std::string k;
      while (std::getline(is, k, ','))
        if (!k.empty())
          g_known.insert(k);
    } else if (a == "--list") {
      for (size_t k = 0; k < parts().size(); k++)
        printf("%zu %s\n", k, parts()[k].name.c_str());
      return 0;
    }
  }
  if (!replay.empty())
    return do_replay(replay, cur);
  if (!cur.empty())
    open_current(cur);

  uint64_t s = seed * 1000003ULL + (uint64_t)shard;
  splitmix(s);
  uint64_t rcseed = splitmix(s) >> 1;
  // rapidcheck reads its configuration from the environment once; the number of cases differs per part,
  // so max_success is the largest needed and every part stops evaluating after its own number.
  std::ostringstream rep;
  rep << "{\"parts\":[";
  bool failed = false;
  std::string fail_part, fail_msg, fail_key;
  Words fail_tape;
  bool first = true;
  for (size_t pi = 0; pi < parts().size() && !failed; pi++) {
    const Part &p = parts()[pi];
    if (!only.empty() && only != p.name)
      continue;
    long total = g_thorough ? p.thorough : p.quick;
    total = (long)std::max(1.0, (double)total * scale);
    long n = total / shards + ((long)shard < total % shards ? 1 : 0);
    if (n <= 0)
      continue;
    PartStats st;
    bool in_shrink = false;
    std::chrono::steady_clock::time_point shrink_end;
    auto t0 = std::chrono::steady_clock::now();
    auto prop = [&](const TapeValue &tv) {
      std::string msg, key;
      if (in_shrink && std::chrono::steady_clock::now() > shrink_end)
        return; // shrinking budget used up: keep the best so far
      size_t used = 0;
      bool ok = run_case(p, (int)pi, tv.w, in_shrink ? nullptr : &st, msg, key, &used);
      if (!ok) {
        if (!in_shrink) {
          in_shrink = true;
          shrink_end = std::chrono::steady_clock::now() + std::chrono::seconds(45);
        }
        fail_tape = tv.w;
        if (fail_tape.size() > used)
          fail_tape.resize(used);
        fail_msg = msg;
        fail_key = key;
        fail_part = p.name;
        throw std::runtime_error(msg);
      }
    };
    rc::detail::TestParams params;
    params.seed = rcseed + pi * 7919;
    params.maxSuccess = (int)n;
    params.maxSize = 100;
    auto gen = gen_tape(p.tape_len);
    rc::detail::TestMetadata md;
    md.id = p.name;
    struct Quiet : public rc::detail::TestListener {
      void onTestCaseFinished(const rc::detail::CaseDescription &) override {}
      void onShrinkTried(const rc::detail::CaseDescription &, bool) override {}
      void onTestFinished(const rc::detail::TestMetadata &, const rc::detail::TestResult &) override {}
    } quiet;
    auto property = rc::detail::toProperty([&]() { prop(*gen); });
    auto result = rc::detail::checkProperty(property, md, params, quiet);
    (void)result;
    st.seconds = std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
    failed = in_shrink;
    rep << (first ? "" : ",") << "{\"name\":" << json_str(p.name) << ",\"evaluations\":" << st.evaluations
        << ",\"planned\":" << n << ",\"nontrivial\":" << st.nontrivial << ",\"discards\":" << st.discards << ",\"known\":" << st.known
        << ",\"seconds\":" << json_num(st.seconds) << ",\"labels\":{";
    bool f2 = true;
    for (auto &l : st.labels) {
      rep << (f2 ? "" : ",") << json_str(l.first) << ":" << l.second;
      f2 = false;
    }
    rep << "},\"known_keys\":{";
    f2 = true;
    for (auto &l : st.known_keys) {
      rep << (f2 ? "" : ",") << json_str(l.first) << ":" << l.second;
      f2 = false;
    }
    rep << "},\"metrics\":{";
    f2 = true;
    for (auto &l : st.metrics) {
      rep << (f2 ? "" : ",") << json_str(l.first) << ":" << json_num(l.second);
      f2 = false;
    }
    rep << "},\"samples\":[";
    for (size_t k = 0; k < st.samples.size(); k++)
      rep << (k ? "," : "") << json_str(st.samples[k].substr(0, 600));
    rep << "]}";
    first = false;
  }
  rep << "]";
  if (failed) {
    rep << ",\"failure\":{\"part\":" << json_str(fail_part) << ",\"message\":" << json_str(fail_msg) << ",\"key\":" << json_str(fail_key)
        << ",\"tape\":[";
    for (size_t k = 0; k < fail_tape.size(); k++)
      rep << (k ? "," : "") << fail_tape[k];
    rep << "]}";
  }
  rep << "}\n";
  std::ofstream o(out + ".tmp");
  o << rep.str();
  o.close();
  rename((out + ".tmp").c_str(), out.c_str());
  fflush(stdout);
  _exit(0);
}
