// C26: self organizing maps: best matching units, training, projection, U-matrix, files
#include "SOM/Distance.h"
#include "SOM/InitFunc.h"
#include "SOM/LearningRestraintFunc.h"
#include "SOM/NeighborhoodFunc.h"
#include "SOM/SOM.h"
#include "SOM/SOMProjector.h"
#include "SOM/SOMTrainer.h"
#include "SOM/SamplingPolicy.h"
#include "SOM/UMatrix.h"
#include "SOM/serialize.h"
#include "common/pbt.h"
#include <boost/archive/text_iarchive.hpp>
#include <boost/archive/text_oarchive.hpp>
#include <random>
#include <sstream>

using namespace Euclid::SOM;
using pbt::Case;
using LD = long double;

namespace {
// What the random device of the code under test yields: a function of the case, so that failures come again
std::uint64_t device_state = 1;
}  // namespace

unsigned int std::random_device::_M_getval() {
  device_state += 0x9e3779b97f4a7c15ull;
  std::uint64_t z = (device_state ^ (device_state >> 30)) * 0xbf58476d1ce4e5b9ull;
  z               = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
  return static_cast<unsigned int>(z >> 32);
}

namespace {

template <std::size_t ND>
struct L1 : public Distance::Interface<ND> {
  using Distance::Interface<ND>::distance;
  double distance(const std::array<double, ND>& a, const std::array<double, ND>& b) const override {
    double r = 0;
    for (std::size_t i = 0; i < ND; ++i)
      r += std::abs(a[i] - b[i]);
    return r;
  }
};

template <std::size_t ND>
LD dist(const std::array<LD, ND>& a, const std::array<double, ND>& b, bool l1, const std::array<double, ND>* u = nullptr) {
  LD r = 0;
  for (std::size_t i = 0; i < ND; ++i) {
    LD d = a[i] - b[i];
    if (u)
      d /= (*u)[i];
    r += l1 ? std::abs(d) : d * d;
  }
  return l1 ? r : std::sqrt(r);
}

struct Cells {
  std::size_t nx, ny;
};

template <std::size_t ND>
using Weights = std::vector<std::array<LD, ND>>;  // [y * nx + x]

template <std::size_t ND, typename D>
Weights<ND> weights(const SOM<ND, D>& som) {
  auto        s = som.getSize();
  Weights<ND> w(s.first * s.second);
  for (std::size_t x = 0; x < s.first; ++x)
    for (std::size_t y = 0; y < s.second; ++y)
      for (std::size_t i = 0; i < ND; ++i)
        w[y * s.first + x][i] = som(x, y)[i];
  return w;
}

template <std::size_t ND>
std::array<double, ND> vec(Case& c, int kind) {
  std::array<double, ND> a;
  for (auto& v : a)
    v = kind == 0 ? static_cast<double>(c.i(-2, 2)) : kind == 1 ? c.real(-1, 1) : kind == 2 ? c.real(-1e6, 1e6) : kind == 3 ? c.real(-1e-12, 1e-12) : c.real(-1e60, 1e60);
  return a;
}

template <typename F>
void dims(Case& c, F f) {
  switch (c.n(0, 2)) {
  case 0: f(std::integral_constant<std::size_t, 1>()); break;
  case 1: f(std::integral_constant<std::size_t, 2>()); break;
  default: f(std::integral_constant<std::size_t, 3>());
  }
}

template <std::size_t ND, typename D>
void fill(Case& c, SOM<ND, D>& som, int kind) {
  for (auto& cell : som)
    cell = vec<ND>(c, kind);
}

// the best matching unit has to be one of the closest cells
template <std::size_t ND, typename R>
void checkBmu(const R& r, const Weights<ND>& w, std::size_t nx, std::size_t ny, const std::array<double, ND>& in, bool l1, const std::array<double, ND>* u = nullptr) {
  auto x = std::get<0>(r), y = std::get<1>(r);
  CHECK(x < nx && y < ny, "the unit is " << x << "," << y);
  LD best = std::numeric_limits<LD>::infinity();
  for (auto& v : w)
    best = std::min(best, dist<ND>(v, in, l1, u));
  LD got = dist<ND>(w[y * nx + x], in, l1, u);
  LD eps = 1e-12L * best + 1e-300L;
  CHECK(got <= best + eps, "cell " << x << "," << y << " has distance " << static_cast<double>(got) << " but another one " << static_cast<double>(best));
  CHECK(std::abs(std::get<2>(r) - got) <= eps, "the distance is " << std::get<2>(r) << " instead of " << static_cast<double>(got));
}

}  // namespace

// Cells, best matching units, U-matrix and projection
PBT_TEST(units, pbt::cases(20000, 1000000)) {
  dims(c, [&](auto nd) {
    constexpr std::size_t ND   = decltype(nd)::value;
    std::size_t           nx = c.len(1, 6), ny = c.len(1, 6);
    int                   kind = static_cast<int>(c.n(0, 4));
    bool                  l1   = c.b(1, 3);
    c.describe([&](std::ostream& o) { o << ND << "D " << nx << "x" << ny << (l1 ? " L1" : " L2") << " values of kind " << kind; });
    c.nontrivial(nx > 1 && ny > 1);
    auto run = [&](auto& som) {
      CHECK(som.getSize() == std::make_pair(nx, ny), "the size is " << som.getSize().first << "x" << som.getSize().second);
      std::size_t n = 0;
      for (auto it = som.begin(); it != som.end(); ++it, ++n) {
        CHECK(std::count(it->begin(), it->end(), 2.5) == static_cast<long>(ND), "a cell is not initialized");
        CHECK(&som(it.template axisValue<0>(), it.template axisValue<1>()) == &*it, "the cell of the iterator is another one");
      }
      CHECK(n == nx * ny, n << " cells");
      fill(c, som, kind);
      auto w = weights(som);
      {  // a moved one is the same
        auto moved = std::move(som);
        som        = std::move(moved);
        auto w2    = weights(som);
        CHECK(w == w2 && som.getSize() == std::make_pair(nx, ny), "moving changed the map");
      }
      const auto&                         csom = som;
      std::vector<std::array<double, ND>> in;
      std::vector<std::array<double, ND>> un;
      for (std::size_t k = c.len(0, 6); k > 0; --k) {
        in.push_back(c.b(1, 4) ? csom(c.n(0, nx - 1), c.n(0, ny - 1)) : vec<ND>(c, kind));
        std::array<double, ND> u;
        for (auto& v : u)
          v = c.real(0.1, 5);
        un.push_back(u);
      }
      for (std::size_t k = 0; k < in.size(); ++k) {
        checkBmu<ND>(csom.findBMU(in[k]), w, nx, ny, in[k], l1);
        auto by = csom.findBMU(k, [&](std::size_t i) { return in[i]; });
        checkBmu<ND>(by, w, nx, ny, in[k], l1);
        if (l1) {
          CHECK_THROWS(csom.findBMU(in[k], un[k]), Elements::Exception, "this distance has no uncertainties");
        } else {
          checkBmu<ND>(csom.findBMU(in[k], un[k]), w, nx, ny, in[k], l1, &un[k]);
          checkBmu<ND>(csom.findBMU(k, [&](std::size_t i) { return in[i]; }, [&](std::size_t i) { return un[i]; }), w, nx, ny, in[k], l1, &un[k]);
        }
      }
      // projection: every input in the cell of its best matching unit, in order
      std::vector<std::size_t> ids;
      for (std::size_t k = 0; k < in.size(); ++k)
        ids.push_back(k);
      auto                     wf = [&](std::size_t i) { return in[i]; };
      auto                     uf = [&](std::size_t i) { return un[i]; };
      std::vector<std::size_t> init;
      if (c.b())
        init.push_back(777);
      auto adder = [](std::vector<std::size_t>& cell, std::size_t i) { cell.push_back(i); };
      for (int with = 0; with < (l1 ? 1 : 2); ++with) {
        auto p = with ? SOMProjector::project<std::vector<std::size_t>>(csom, ids.begin(), ids.end(), wf, uf, adder, init)
                      : SOMProjector::project<std::vector<std::size_t>>(csom, ids.begin(), ids.end(), wf, adder);
        CHECK(p.size() == nx * ny, "the projection has " << p.size() << " cells");
        std::vector<std::vector<std::size_t>> want(nx * ny, with ? init : std::vector<std::size_t>());
        for (std::size_t k = 0; k < in.size(); ++k) {
          auto b = with ? csom.findBMU(in[k], un[k]) : csom.findBMU(in[k]);
          want[std::get<1>(b) * nx + std::get<0>(b)].push_back(k);
        }
        for (std::size_t x = 0; x < nx; ++x)
          for (std::size_t y = 0; y < ny; ++y)
            CHECK(p(x, y) == want[y * nx + x], "cell " << x << "," << y << " of the projection holds " << p(x, y).size() << " inputs instead of " << want[y * nx + x].size());
      }
      // U-matrix
      if (nx * ny > 1)
        for (auto type : {UMatrixType::MIN, UMatrixType::MAX, UMatrixType::MEAN}) {
          auto u = computeUMatrix(csom, type);
          CHECK(u.size() == nx * ny, "the U-matrix has " << u.size() << " cells");
          for (std::size_t x = 0; x < nx; ++x)
            for (std::size_t y = 0; y < ny; ++y) {
              std::vector<LD> d;
              for (std::size_t i = 0; i < nx; ++i)
                for (std::size_t j = 0; j < ny; ++j)
                  if ((i != x || j != y) && i + 1 >= x && i <= x + 1 && j + 1 >= y && j <= y + 1)
                    d.push_back(dist<ND>(w[y * nx + x], csom(i, j), l1));
              LD want = type == UMatrixType::MIN ? *std::min_element(d.begin(), d.end()) : type == UMatrixType::MAX ? *std::max_element(d.begin(), d.end()) : std::accumulate(d.begin(), d.end(), LD(0)) / d.size();
              CHECK(std::abs(u(x, y) - want) <= 1e-12L * want, "cell " << x << "," << y << " of the U-matrix is " << u(x, y) << " instead of " << static_cast<double>(want));
            }
        }
      CHECK(weights(csom) == w, "asking changed the map");
    };
    if (l1) {
      SOM<ND, L1<ND>> som(nx, ny, [] { return 2.5; });
      run(som);
    } else {
      SOM<ND> som(nx, ny, [] { return 2.5; });
      run(som);
    }
  });
}

namespace {

using Neighbor = NeighborhoodFunc::Signature;

LD iterFactor(std::size_t i, std::size_t n) { return static_cast<LD>(n - i) / n; }

struct Hood {
  int         kind;  // 0 disk, 1 kohonen, 2 of both signs
  double      p;
  std::size_t nx, ny;
  static LD   wave(LD d2) { return d2 == 0 ? .5L : .1L * std::cos(d2); }
  Neighbor    make() const {
    if (kind == 2)
      return [](std::pair<std::size_t, std::size_t> a, std::pair<std::size_t, std::size_t> b, std::size_t, std::size_t) {
        LD dx = static_cast<LD>(a.first) - static_cast<LD>(b.first), dy = static_cast<LD>(a.second) - static_cast<LD>(b.second);
        return static_cast<double>(wave(dx * dx + dy * dy));
      };
    return kind == 0 ? NeighborhoodFunc::linearUnitDisk(p) : NeighborhoodFunc::kohonen(nx, ny, p);
  }
  // returns the factor; margin tells how far from the border of the disk
  LD value(LD dx, LD dy, std::size_t i, std::size_t n, bool& border) const {
    LD d2 = dx * dx + dy * dy, s0 = std::max(nx, ny) / 2.L;
    if (kind == 2) {
      border = false;
      return wave(d2);
    }
    LD sigma = kind == 0 ? 0 : s0 * std::exp(-1.L * i * std::log(s0) / n);
    LD r     = kind == 0 ? p * iterFactor(i, n) : p * sigma;
    border   = std::abs(d2 - r * r) < 1e-9L * (1 + r * r);
    if (d2 >= r * r)
      return 0;
    return kind == 0 ? 1 : std::exp(-d2 / (2 * sigma * sigma));
  }
};

template <typename It>
struct Scripted : public SamplingPolicy::Interface<It> {
  mutable std::vector<std::vector<std::size_t>> script;  // of every iteration
  mutable std::size_t                           iteration = 0, at = 0;
  mutable It                                    b, e;
  It                                            here() const { return at < script[iteration - 1].size() ? b + static_cast<long>(script[iteration - 1][at]) : e; }
  It                                            start(It begin, It end) const override {
    b = begin;
    e = end;
    ++iteration;
    at = 0;
    return here();
  }
  It next(It) const override {
    ++at;
    return here();
  }
};

}  // namespace

// Neighborhood and restraint functions
PBT_TEST(factors, pbt::cases(60000, 3000000)) {
  Hood h;
  h.kind = static_cast<int>(c.n(0, 1));
  h.p    = c.b() ? static_cast<double>(c.n(1, 6)) / 2 : c.real(0.1, 8);
  h.nx   = c.n(1, 12);
  h.ny   = c.n(1, 12);
  auto f = h.make();
  auto g = f;
  c.describe([&](std::ostream& o) { o << (h.kind ? "kohonen " : "disk ") << h.p << " " << h.nx << "x" << h.ny; });
  c.nontrivial(h.nx * h.ny > 1);
  auto   lin  = LearningRestraintFunc::linear();
  double rate = c.real(0, 2);
  auto   expo = LearningRestraintFunc::exponentialDecay(rate);
  for (int t = 0; t < 6; ++t) {
    std::size_t n = c.n(1, 20), i = c.n(0, n - 1);
    std::size_t bx = c.n(0, h.nx - 1), by = c.n(0, h.ny - 1), x = c.n(0, h.nx - 1), y = c.n(0, h.ny - 1);
    bool        border;
    LD          want = h.value(static_cast<LD>(bx) - x, static_cast<LD>(by) - y, i, n, border);
    double      got  = (c.b() ? f : g)({bx, by}, {x, y}, i, n);
    if (!border)
      CHECK(std::abs(got - want) <= 1e-9L, "the factor of " << x << "," << y << " around " << bx << "," << by << " in iteration " << i << " of " << n << " is " << got << " instead of " << static_cast<double>(want));
    CHECK(std::abs(lin(i, n) - iterFactor(i, n)) <= 1e-14L, "the linear restraint is " << lin(i, n));
    CHECK(std::abs(expo(i, n) - rate * std::exp(-static_cast<LD>(i) / n)) <= 1e-13L * (1 + rate), "the exponential restraint is " << expo(i, n));
  }
}

// Training moves the cells around the best matching unit towards the input
PBT_TEST(training, pbt::cases(12000, 600000)) {
  dims(c, [&](auto nd) {
    constexpr std::size_t ND = decltype(nd)::value;
    std::size_t           nx = c.len(1, 6), ny = c.len(1, 6), iterations = c.n(0, 4), inputs = c.len(0, 6);
    Hood                  h{static_cast<int>(c.n(0, 2)), c.real(0.3, 6), nx, ny};
    if (h.kind != 2 && c.b(1, 12))
      iterations = c.n(5, 130);
    int                   restraint = static_cast<int>(c.n(0, 3));
    double                rate      = c.real(0.1, 1);
    bool                  scripted  = c.b();
    c.describe([&](std::ostream& o) { o << ND << "D " << nx << "x" << ny << (h.kind == 2 ? " wave " : h.kind ? " kohonen " : " disk ") << h.p << ", restraint " << restraint << ", " << iterations << " iterations of " << inputs << (scripted ? " picked" : "") << " inputs"; });
    c.nontrivial(nx * ny > 1 && iterations && inputs);
    SOM<ND> som(nx, ny);
    for (auto& cell : som)
      for (auto& v : cell)
        CHECK(v == 0, "a cell is not zero");
    fill(c, som, 1);
    auto                                w = weights(som);
    std::vector<std::array<double, ND>> in;
    for (std::size_t k = 0; k < inputs; ++k)
      in.push_back(vec<ND>(c, 1));
    std::vector<std::size_t> ids;
    for (std::size_t k = 0; k < inputs; ++k)
      ids.push_back(k);
    using It = std::vector<std::size_t>::iterator;
    Scripted<It> policy;
    for (std::size_t i = 0; i < iterations; ++i) {
      policy.script.push_back({});
      for (std::size_t k = inputs ? c.n(0, 4) : 0; k > 0; --k)
        policy.script.back().push_back(c.n(0, inputs - 1));
    }
    LearningRestraintFunc::Signature lf = restraint == 0 ? LearningRestraintFunc::linear() : restraint == 1 ? LearningRestraintFunc::exponentialDecay(rate) : restraint == 2 ? [](std::size_t i, std::size_t) { return i % 2 ? 0. : .5; } : [](std::size_t, std::size_t) { return 1.; };
    SOMTrainer trainer(h.make(), lf);
    auto       wf = [&](std::size_t k) { return in[k]; };
    if (scripted)
      trainer.train(som, iterations, ids.begin(), ids.end(), wf, policy);
    else
      trainer.train(som, iterations, ids.begin(), ids.end(), wf);
    std::size_t rounds = 0;
    for (std::size_t i = 0; i < iterations; ++i) {
      LD l = lf(i, iterations);
      if (l == 0 && restraint == 2)
        continue;
      auto& order = scripted ? policy.script[rounds] : ids;
      ++rounds;
      for (auto k : order) {
        LD          best = std::numeric_limits<LD>::infinity(), second = best;
        std::size_t at = 0;
        for (std::size_t j = 0; j < w.size(); ++j) {
          LD d = dist<ND>(w[j], in[k], false);
          if (d < best) {
            second = best;
            best   = d;
            at     = j;
          } else
            second = std::min(second, d);
        }
        if (second - best < 1e-9L) {
          c.label("two cells as close as each other");
          return;
        }
        for (std::size_t j = 0; j < w.size(); ++j) {
          bool border;
          LD   f = h.value(static_cast<LD>(at % nx) - static_cast<LD>(j % nx), static_cast<LD>(at / nx) - static_cast<LD>(j / nx), i, iterations, border);
          if (border)
            return;
          for (std::size_t q = 0; q < ND; ++q)
            w[j][q] += f * l * (in[k][q] - w[j][q]);
        }
      }
    }
    for (std::size_t x = 0; x < nx; ++x)
      for (std::size_t y = 0; y < ny; ++y)
        for (std::size_t q = 0; q < ND; ++q)
          CHECK(std::abs(som(x, y)[q] - w[y * nx + x][q]) <= 1e-9L, "cell " << x << "," << y << " is " << som(x, y)[q] << " instead of " << static_cast<double>(w[y * nx + x][q]));
  });
}

// Bootstrap takes one of the inputs, the jackknife a number of different ones
PBT_TEST(sampling, pbt::cases(4000, 200000)) {
  device_state = c.n(0, 1000000);
  std::size_t      n = c.len(0, 6), k = c.n(0, 8);
  std::vector<int> data(n);
  bool             all = c.b(1, 20);
  c.describe([&](std::ostream& o) { o << k << " of " << n << (all ? ", often" : ""); });
  c.nontrivial(n > 1 && k > 0);
  using It = std::vector<int>::iterator;
  std::set<std::size_t>        boot, jack, first;
  SamplingPolicy::Bootstrap<It> b  = SamplingPolicy::bootstrapFactory(data.begin());
  SamplingPolicy::Jackknife<It> j  = SamplingPolicy::jackknifeFactory(data.begin(), k);
  SamplingPolicy::FullSet<It>   fs;
  // the chance that one of six is never chosen in 300 draws is 1e-23
  for (int t = 0; t < (all ? 300 : 3); ++t) {
    std::vector<std::size_t> got;
    // of all, or of the first of them
    if (!all)
      n = data.size() - (c.b() ? 0 : c.n(0, data.size()));
    auto end  = data.begin() + static_cast<std::ptrdiff_t>(n);
    auto draw = [&](const SamplingPolicy::Interface<It>& p) {
      got.clear();
      for (auto it = p.start(data.begin(), end); it != end; it = p.next(it)) {
        CHECK(it >= data.begin() && it < end && got.size() < 100, "a sample outside of the data");
        got.push_back(static_cast<std::size_t>(it - data.begin()));
      }
    };
    draw(fs);
    CHECK(got.size() == n, "the full set has " << got.size());
    for (std::size_t q = 0; q < n; ++q)
      CHECK(got[q] == q, "the full set is out of order");
    draw(b);
    CHECK(got.size() == std::min<std::size_t>(n, 1), "the bootstrap has " << got.size() << " samples of " << n);
    boot.insert(got.begin(), got.end());
    draw(j);
    CHECK(got.size() == std::min(n, k), "the jackknife has " << got.size() << " samples of " << n);
    CHECK(std::set<std::size_t>(got.begin(), got.end()).size() == got.size(), "the jackknife has a sample twice");
    jack.insert(got.begin(), got.end());
    if (!got.empty())
      first.insert(got[0]);
  }
  if (all) {
    CHECK(boot.size() == n, "the bootstrap chose " << boot.size() << " of " << n << " inputs in 300 draws");
    if (k)
      CHECK(jack.size() == n && first.size() == n, "the jackknife chose " << jack.size() << " of " << n << " inputs in 300 draws");
  }
}

// Maps in archives and FITS files
PBT_TEST(files, pbt::cases(3000, 100000)) {
  dims(c, [&](auto nd) {
    constexpr std::size_t ND = decltype(nd)::value;
    std::size_t           nx = c.len(1, 6), ny = c.len(1, 6);
    int                   format = static_cast<int>(c.n(0, 2));
    bool                  l1     = c.b(1, 3);
    c.describe([&](std::ostream& o) { o << ND << "D " << nx << "x" << ny << " format " << format; });
    c.nontrivial(nx != ny);
    std::string name = pbt::scratchDir() + "/som.fits";
    auto        run  = [&](auto& som, auto other) {
      using S = typename std::decay<decltype(som)>::type;
      using D = typename std::conditional<std::is_same<S, SOM<ND>>::value, Distance::L2<ND>, L1<ND>>::type;
      using O = decltype(other);
      for (auto& cell : som)
        for (auto& v : cell)
          v = c.pick({c.real(-1, 1), c.real(-1e300, 1e300), 5e-324, -0.0, 1. / 3});
      std::stringstream s;
      std::remove(name.c_str());
      if (format == 0)
        somBinaryExport(s, som);
      else if (format == 1)
        somExport<boost::archive::text_oarchive>(s, som);
      else
        somFitsExport(name, som);
      std::string text = s.str();
      auto        again = [&] {
        std::stringstream in(text);
        return format == 0 ? somBinaryImport<ND, D>(in) : format == 1 ? somImport<boost::archive::text_iarchive, ND, D>(in) : somFitsImport<ND, D>(name);
      };
      auto back = again();
      CHECK(back.getSize() == som.getSize(), "the size is " << back.getSize().first << "x" << back.getSize().second);
      for (std::size_t x = 0; x < nx; ++x)
        for (std::size_t y = 0; y < ny; ++y)
          for (std::size_t i = 0; i < ND; ++i)
            CHECK(pbt::sameBits(back(x, y)[i], som(x, y)[i]), "cell " << x << "," << y << " is " << back(x, y)[i] << " instead of " << som(x, y)[i]);
      // with another distance, or another dimension of the weights
      std::stringstream in(text);
      if (format == 0)
        CHECK_THROWS((somBinaryImport<ND, O>(in)), Elements::Exception, "another distance");
      else if (format == 1)
        CHECK_THROWS((somImport<boost::archive::text_iarchive, ND, O>(in)), Elements::Exception, "another distance");
      else
        CHECK_THROWS((somFitsImport<ND, O>(name)), Elements::Exception, "another distance");
      std::remove(name.c_str());
    };
    if (l1) {
      SOM<ND, L1<ND>> som(nx, ny);
      run(som, Distance::L2<ND>());
    } else {
      SOM<ND> som(nx, ny);
      run(som, L1<ND>());
    }
  });
}
