// A small property-based testing engine.
//
//  * A case is generated from a sequence of recorded choices (Case::draw). The sequence is a pure function of
//    (VERIF_SEED, test name, case number), so every case can be re-generated, and it is what gets shrunk.
//  * Worker processes run the cases; the parent re-runs, shrinks and confirms failures one case per forked child,
//    so aborts of the sanitizers, signals, uncaught exceptions and hangs of the code under test are failures
//    like any other.
//  * A failure is reported only after it was reproduced from its choice sequence alone.
#ifndef PBT_H
#define PBT_H
#include <algorithm>
#include <array>
#include <atomic>
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <limits>
#include <map>
#include <numeric>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <vector>

namespace pbt {

struct Failure : public std::exception {
  std::string msg;
  explicit Failure(std::string m) : msg(std::move(m)) {}
  const char* what() const noexcept override { return msg.c_str(); }
};
struct Discard {};

// Where the choices of the running case are mirrored, so that they survive a crash of the process
struct Live {
  std::uint64_t  capacity = 0;
  std::uint64_t* count    = nullptr;
  std::uint64_t* data     = nullptr;
  char*          desc     = nullptr;  // 64 KiB
};
Live& live();

inline std::uint64_t mix(std::uint64_t x) {
  x += 0x9e3779b97f4a7c15ull;
  x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ull;
  x = (x ^ (x >> 27)) * 0x94d049bb133111ebull;
  return x ^ (x >> 31);
}

class Case {
public:
  // Generates from a seed
  Case(std::uint64_t seed, unsigned size, bool verbose) : m_rng(seed), m_size(size), m_verbose(verbose) {}
  // Replays a choice sequence (0 once it is exhausted)
  Case(const std::vector<std::uint64_t>& choices, unsigned size, bool verbose)
      : m_rng(0), m_size(size), m_verbose(verbose), m_mode(Mode::REPLAY), m_in(choices) {}
  // Reads the choices from bytes (0 once they are exhausted); for coverage-guided fuzzing
  Case(const std::uint8_t* data, std::size_t len, unsigned size)
      : m_rng(0), m_size(size), m_verbose(false), m_mode(Mode::BYTES), m_bytes(data), m_nbytes(len) {}

  // Uniform in [0, n)
  std::uint64_t draw(std::uint64_t n) {
    std::uint64_t v;
    if (m_mode == Mode::BYTES) {
      v = 0;
      for (std::uint64_t m = n - 1, k = 0; k < 8 && m != 0; m >>= 8, ++k)
        v |= static_cast<std::uint64_t>(m_nbytes ? (--m_nbytes, *m_bytes++) : 0) << (8 * k);
      if (n != 0 && v >= n)
        v %= n;
    } else if (m_mode == Mode::REPLAY) {
      v = m_out.size() < m_in.size() ? m_in[m_out.size()] : 0;
      if (n != 0 && v >= n)
        v %= n;
    } else {
      m_rng = m_rng + 0x9e3779b97f4a7c15ull;
      std::uint64_t x = mix(m_rng);
      v = n == 0 ? x : static_cast<std::uint64_t>((static_cast<unsigned __int128>(x) * n) >> 64);
    }
    m_out.push_back(v);
    Live& l = live();
    if (l.data && *l.count < l.capacity)
      l.data[(*l.count)++] = v;
    return v;
  }
  // Integer in [lo, hi], shrinks to lo
  std::int64_t i(std::int64_t lo, std::int64_t hi) { return lo + static_cast<std::int64_t>(draw(static_cast<std::uint64_t>(hi - lo) + 1)); }
  std::size_t  n(std::size_t lo, std::size_t hi) { return lo + draw(hi - lo + 1); }
  // A length in [lo, hi] that grows with the size of the case
  std::size_t len(std::size_t lo, std::size_t hi) {
    std::size_t top = lo + (hi - lo) * std::min(100u, m_size) / 100;
    return n(lo, std::max(top, std::min(hi, lo + 2)));
  }
  // As len, but one case in den is a big one
  std::size_t size(std::size_t lo, std::size_t hi, std::size_t huge, std::uint64_t den = 100) { return b(1, den) ? n(hi, huge) : len(lo, hi); }
  // true with probability num/den, shrinks to false
  bool b(std::uint64_t num = 1, std::uint64_t den = 2) { return draw(den) >= den - num; }
  // [0, 1)
  double unit() { return static_cast<double>(draw(1ull << 53)) / static_cast<double>(1ull << 53); }
  // A real in [lo, hi]: often a multiple of a coarse step, else anything
  double real(double lo, double hi) {
    switch (draw(4)) {
    case 0: return lo + (hi - lo) * static_cast<double>(draw(9)) / 8.;
    case 1: {
      double a = std::ceil(lo), z = std::floor(hi);
      if (z >= a && z - a < 1e15)
        return a + static_cast<double>(draw(static_cast<std::uint64_t>(z - a) + 1));
      return lo + (hi - lo) * unit();
    }
    default: return lo + (hi - lo) * unit();
    }
  }
  template <typename C>
  auto pick(const C& c) -> typename std::decay<decltype(*std::begin(c))>::type {
    auto it = std::begin(c);
    std::advance(it, draw(static_cast<std::uint64_t>(std::distance(std::begin(c), std::end(c)))));
    return *it;
  }
  template <typename T>
  T pick(std::initializer_list<T> l) {
    return *(l.begin() + draw(l.size()));
  }
  // Index with the given weights; index 0 is the simplest one
  std::size_t weighted(std::initializer_list<unsigned> w) {
    std::uint64_t tot = 0;
    for (auto x : w)
      tot += x;
    std::uint64_t v = draw(tot), k = 0;
    for (auto x : w) {
      if (v < x)
        return k;
      v -= x;
      ++k;
    }
    return 0;
  }
  template <typename T>
  void shuffle(std::vector<T>& v) {
    for (std::size_t k = 0; k + 1 < v.size(); ++k) {
      std::size_t j = k + draw(v.size() - k);
      if (j != k)
        std::swap(v[k], v[j]);
    }
  }

  unsigned size() const { return m_size; }
  bool     verbose() const { return m_verbose; }

  // Marks the case as non-trivial, by the rule the property states
  void nontrivial(bool cond = true) { m_nontrivial = m_nontrivial || cond; }
  bool isNontrivial() const { return m_nontrivial; }
  void label(const std::string& l) { m_labels.insert(l); }
  void label(const std::string& l, bool cond) {
    if (cond)
      m_labels.insert(l);
  }
  const std::set<std::string>& labels() const { return m_labels; }

  // Description of the case, rendered only when somebody will read it
  template <typename F>
  void describe(F f) {
    if (m_verbose) {
      std::ostringstream s;
      s.precision(17);
      f(s);
      m_desc += s.str();
      m_desc += "\n";
      if (live().desc) {
        std::size_t n = std::min<std::size_t>(m_desc.size(), 65535);
        std::memcpy(live().desc, m_desc.data(), n);
        live().desc[n] = 0;
      }
    }
  }
  const std::string&                description() const { return m_desc; }
  const std::vector<std::uint64_t>& choices() const { return m_out; }

private:
  std::uint64_t              m_rng;
  unsigned                   m_size;
  bool                       m_verbose;
  enum class Mode { GENERATE, REPLAY, BYTES } m_mode = Mode::GENERATE;
  const std::uint8_t*        m_bytes  = nullptr;
  std::size_t                m_nbytes = 0;
  std::vector<std::uint64_t> m_in, m_out;
  bool                       m_nontrivial = false;
  std::set<std::string>      m_labels;
  std::string                m_desc;
};

struct Options {
  // cases in the quick and in the thorough tier
  std::uint64_t quick = 2000, thorough = 100000;
  // schedules are not a function of the choices: retry when confirming
  bool scheduled = false;
  // upper bound of worker processes (0: one per core)
  unsigned workers = 0;
  // seconds a single case may take before it counts as a hang (it must hang again when re-run)
  unsigned hang_s = 40;
  // whether the coverage-guided fuzzer may drive this test as well
  bool fuzz = true;
};

struct Test {
  std::string                name;
  Options                    opt;
  std::function<void(Case&)> fn;
};

std::vector<Test>& registry();
struct Register {
  Register(const char* name, Options o, std::function<void(Case&)> fn) { registry().push_back({name, o, std::move(fn)}); }
};

// A probe of a known finding: throws (or crashes) while the defect is there
struct Known {
  std::string           id;
  std::string           what;
  std::function<void()> fn;
};
std::vector<Known>& knownRegistry();
struct RegisterKnown {
  RegisterKnown(const char* id, const char* what, std::function<void()> fn) { knownRegistry().push_back({id, what, std::move(fn)}); }
};

// Directory for the scratch files of the running process; removed by the parent
const std::string& scratchDir();

inline Options cases(std::uint64_t quick, std::uint64_t thorough) {
  Options o;
  o.quick    = quick;
  o.thorough = thorough;
  return o;
}
inline Options scheduled(std::uint64_t quick, std::uint64_t thorough, unsigned workers) {
  Options o   = cases(quick, thorough);
  o.scheduled = true;
  o.workers   = workers;
  o.fuzz      = false;
  return o;
}

template <typename T>
inline std::string str(const T& v) {
  std::ostringstream s;
  s.precision(17);
  s << v;
  return s.str();
}
template <typename T>
inline std::string str(const std::vector<T>& v) {
  std::ostringstream s;
  s.precision(17);
  s << "[";
  for (std::size_t k = 0; k < v.size(); ++k)
    s << (k ? ", " : "") << v[k];
  s << "]";
  return s.str();
}

// Comparison helpers
inline bool sameBits(double a, double b) { return (std::isnan(a) && std::isnan(b)) || a == b; }
inline bool close(double a, double b, double rel, double abs = 0.) {
  if (std::isnan(a) || std::isnan(b))
    return std::isnan(a) && std::isnan(b);
  if (std::isinf(a) || std::isinf(b))
    return a == b;
  return std::abs(a - b) <= std::max(abs, rel * std::max(std::abs(a), std::abs(b)));
}

// A function of its argument alone: asked again in another order it gives the same values. F: double(X), got: what it gave
template <typename F, typename X>
void sameAgain(Case& c, F f, const std::vector<X>& xs, const std::vector<double>& got) {
  std::vector<std::size_t> order(xs.size());
  std::iota(order.begin(), order.end(), std::size_t{0});
  c.shuffle(order);
  for (auto k : order) {
    double again = f(xs[k]);
    if (!sameBits(again, got[k])) {
      std::ostringstream s;
      s.precision(17);
      s << "the value at " << str(xs[k]) << " was " << got[k] << " and is " << again << " when asked again";
      throw Failure(s.str());
    }
  }
}

}  // namespace pbt

#define PBT_CAT2(a, b) a##b
#define PBT_CAT(a, b) PBT_CAT2(a, b)
#define PBT_TEST(NAME, OPTIONS)                                                                                        \
  static void           PBT_CAT(pbt_test_, NAME)(pbt::Case & c);                                                       \
  static pbt::Register  PBT_CAT(pbt_reg_, NAME)(#NAME, OPTIONS, PBT_CAT(pbt_test_, NAME));                             \
  static void           PBT_CAT(pbt_test_, NAME)(pbt::Case & c)

// ID names the entry of known_findings.txt
#define PBT_KNOWN(ID, WHAT)                                                                                            \
  static void               PBT_CAT(pbt_known_, ID)();                                                                 \
  static pbt::RegisterKnown PBT_CAT(pbt_kreg_, ID)(#ID, WHAT, PBT_CAT(pbt_known_, ID));                                \
  static void               PBT_CAT(pbt_known_, ID)()

#define CHECK(COND, MSG)                                                                                               \
  do {                                                                                                                 \
    if (!(COND)) {                                                                                                     \
      std::ostringstream pbt_s;                                                                                        \
      pbt_s.precision(17);                                                                                             \
      pbt_s << MSG << "  [" #COND ", line " << __LINE__ << "]";                                                        \
      throw pbt::Failure(pbt_s.str());                                                                                 \
    }                                                                                                                  \
  } while (false)

// EXPR must throw EXC (and nothing else)
#define CHECK_THROWS(EXPR, EXC, MSG)                                                                                   \
  do {                                                                                                                 \
    bool pbt_thrown = false;                                                                                           \
    try {                                                                                                              \
      EXPR;                                                                                                            \
    } catch (const EXC&) {                                                                                             \
      pbt_thrown = true;                                                                                               \
    }                                                                                                                  \
    CHECK(pbt_thrown, MSG << ": no " #EXC " thrown");                                                                  \
  } while (false)
#endif
