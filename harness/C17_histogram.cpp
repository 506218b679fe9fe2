// C17: histograms
#include "Histogram/Binning/EdgeVector.h"
#include "Histogram/Binning/Scott.h"
#include "Histogram/Binning/Sqrt.h"
#include "Histogram/Histogram.h"
#include "common/pbt.h"

using namespace Euclid::Histogram;
using pbt::Case;
using LD = long double;

namespace {

template <typename T>
T value(Case& c, double lo, double hi) {
  return std::is_integral<T>::value ? static_cast<T>(c.i(static_cast<std::int64_t>(lo), static_cast<std::int64_t>(hi))) : static_cast<T>(c.real(lo, hi));
}

template <typename T>
std::vector<T> genEdges(Case& c) {
  std::set<T> e;
  std::size_t n = c.size(2, 12, 2000, 300);
  for (std::size_t k = 0; k < 4 * n && e.size() < n; ++k)
    e.insert(value<T>(c, -20, 20));
  while (e.size() < 2)
    e.insert(static_cast<T>(*e.rbegin() + 1));
  return {e.begin(), e.end()};
}

template <typename T>
T nextTo(T v, bool up) {
  return std::is_integral<T>::value ? static_cast<T>(v + (up ? 1 : -1)) : static_cast<T>(std::nextafter(v, up ? std::numeric_limits<T>::max() : std::numeric_limits<T>::lowest()));
}

// For each value the bin that counted it, -1 if none did. The weights are exact powers of two, all different, for 50 values at
// a time: the counts tell which of them are in which bin
template <typename F>
std::vector<int> binsOf(std::size_t n, F&& countsFor) {
  std::vector<int> bin(n, -1);
  for (std::size_t from = 0; from == 0 || from < n; from += 50) {
    std::size_t         m = std::min<std::size_t>(50, n - from);
    std::vector<double> w(n, 0.);
    for (std::size_t k = 0; k < m; ++k)
      w[from + k] = std::ldexp(1., static_cast<int>(k));
    std::vector<double> counts = countsFor(w);
    for (std::size_t b = 0; b < counts.size(); ++b) {
      CHECK(counts[b] >= 0 && counts[b] < std::ldexp(1., static_cast<int>(m)) && counts[b] == std::floor(counts[b]), "bin " << b << " has " << counts[b]);
      auto v = static_cast<std::uint64_t>(counts[b]);
      for (std::size_t k = 0; k < m; ++k)
        if (v >> k & 1) {
          CHECK(bin[from + k] == -1, "value " << from + k << " is counted in the bins " << bin[from + k] << " and " << b);
          bin[from + k] = static_cast<int>(b);
        }
    }
  }
  return bin;
}

template <typename T>
void edgesCase(Case& c) {
  auto           e = genEdges<T>(c);
  std::vector<T> data;
  std::size_t    n = c.size(0, 50, 2000, 400);
  for (std::size_t k = 0; k < n; ++k)
    switch (c.weighted({3, 2, 1, 1})) {
    case 0: data.push_back(value<T>(c, -22, 22)); break;
    case 1: data.push_back(c.pick(e)); break;
    case 2: data.push_back(nextTo(c.pick(e), c.b())); break;
    default:
      if (!std::is_integral<T>::value)
        data.push_back(c.pick({std::numeric_limits<T>::quiet_NaN(), std::numeric_limits<T>::infinity(), -std::numeric_limits<T>::infinity()}));
      else
        data.push_back(c.pick({std::numeric_limits<T>::min(), std::numeric_limits<T>::max()}));
    }
  n = data.size();
  c.describe([&](std::ostream& o) { o << "edges=" << pbt::str(e) << " data=" << pbt::str(data); });
  std::vector<double>  w(n, 1.);
  Histogram<T, double> h(data.begin(), data.end(), w.begin(), w.end(), Binning::EdgeVector<T>(e));
  CHECK(h.size() == e.size() - 1 && h.getCounts().size() == h.size() && h.getBins().size() == h.size(), "the size is " << h.size());
  CHECK(h.getEdges() == e, "the edges are " << pbt::str(h.getEdges()));
  auto bin = binsOf(n, [&](const std::vector<double>& v) { return Histogram<T, double>(data.begin(), data.end(), v.begin(), v.end(), Binning::EdgeVector<T>(e)).getCounts(); });
  int  in  = 0;
  for (std::size_t k = 0; k < n; ++k) {
    int expect = -1;
    for (std::size_t b = 0; b + 1 < e.size(); ++b)
      if (data[k] >= e[b] && (data[k] < e[b + 1] || (b + 2 == e.size() && data[k] == e[b + 1])))
        expect = static_cast<int>(b);
    CHECK(bin[k] == expect, data[k] << " is in bin " << bin[k] << " instead of " << expect);
    in += expect >= 0;
  }
  c.nontrivial(in > 1 && e.size() > 2);
  auto centers = h.getBins();
  for (std::size_t b = 0; b < h.size(); ++b) {
    CHECK(h.getBinEdges(b) == std::make_pair(e[b], e[b + 1]), "the edges of bin " << b << " are " << h.getBinEdges(b).first << ", " << h.getBinEdges(b).second);
    LD mid = (static_cast<LD>(e[b]) + e[b + 1]) / 2;
    CHECK(std::abs(centers[b] - mid) <= (std::is_integral<T>::value ? 0.5L : 1e-6L), "the centre of bin " << b << " is " << centers[b]);
  }
  // without weights each value counts for one
  Histogram<T> plain(data.begin(), data.end(), Binning::EdgeVector<T>(e));
  auto         counts = plain.getCounts();
  CHECK(counts.size() == h.size(), counts.size() << " counts");
  for (std::size_t b = 0; b < h.size(); ++b)
    CHECK(counts[b] == std::count(bin.begin(), bin.end(), static_cast<int>(b)), "bin " << b << " has " << counts[b] << " values");
}

template <typename T>
LD slack(T start, T end) {
  return std::is_integral<T>::value ? 0 : 64 * static_cast<LD>(std::numeric_limits<T>::epsilon()) * std::max(std::abs(static_cast<LD>(start)), std::abs(static_cast<LD>(end)));
}

template <typename T>
std::vector<T> genData(Case& c) {
  std::vector<T> data;
  std::size_t    n      = c.size(1, 50, 2000, 400);
  double         offset = static_cast<double>(c.pick({0, 0, 100, -1000})), scale = static_cast<double>(c.pick({1, 10, 30}));
  bool           constant = c.b(1, 10);
  T              top = static_cast<T>(offset - 100);
  for (std::size_t k = 0; k < n; ++k) {
    T v = constant && k ? data[0] : k && c.b(1, 4) ? c.pick(data) : !std::is_integral<T>::value && k && top != 0 && c.b(1, 8) ? nextTo(top, false) : value<T>(c, offset - scale, offset + scale);
    data.push_back(v);
    top = std::max(top, v);
  }
  return data;
}

// Bins of the same width from the lowest to the highest value, and every value is in the one that has it
template <typename T, template <typename> class Rule>
void autoCase(Case& c, bool scott) {
  auto        data = genData<T>(c);
  std::size_t n    = data.size();
  c.describe([&](std::ostream& o) { o << "data=" << pbt::str(data); });
  T    lo = *std::min_element(data.begin(), data.end()), hi = *std::max_element(data.begin(), data.end());
  std::vector<double>  w(n, 1.);
  Histogram<T, double> h(data.begin(), data.end(), w.begin(), w.end(), Rule<T>());
  auto                 edges = h.getEdges();
  CHECK(h.size() >= 1 && edges.size() == h.size() + 1 && h.getCounts().size() == h.size() && h.getBins().size() == h.size(), h.size() << " bins with " << edges.size() << " edges");
  LD tol = slack(lo, hi);
  // how many
  if (!scott) {
    std::size_t bins = 0;
    while (bins * bins < n)
      ++bins;
    CHECK(h.size() == bins, h.size() << " bins for " << n << " values");
  } else if (!std::is_integral<T>::value && lo != hi) {
    LD mean = 0, var = 0;
    for (auto v : data)
      mean += static_cast<LD>(v) / n;
    for (auto v : data)
      var += (v - mean) * (v - mean) / n;
    LD k = (static_cast<LD>(hi) - lo) / (3.5L * std::sqrt(var) / std::cbrt(static_cast<LD>(n)));
    // the spread has to be more than what the rounding of the sums makes of it
    if (std::sqrt(var) > 1e3 * tol) {
      LD off = std::is_same<T, float>::value ? 2e-3L : 1e-9L;
      CHECK(h.size() >= std::ceil(k * (1 - off)) && h.size() <= std::ceil(k * (1 + off)), h.size() << " bins instead of " << static_cast<double>(std::ceil(k)));
    }
  }
  c.nontrivial(h.size() > 1 && n > 3);
  c.label("all the values are the same", lo == hi);
  // where
  LD width = static_cast<LD>(edges.back() - edges.front()) / h.size();
  for (std::size_t b = 0; b < h.size(); ++b) {
    CHECK(std::abs(edges[b + 1] - edges[b] - width) <= 2 * tol, "bin " << b << " goes from " << edges[b] << " to " << edges[b + 1] << " but the mean width is " << static_cast<double>(width));
    CHECK(h.getBinEdges(b).first == edges[b] && std::abs(h.getBinEdges(b).second - static_cast<LD>(edges[b + 1])) <= tol, "the edges of bin " << b << " are different on their own");
  }
  if (!std::is_integral<T>::value && lo != hi && (!scott || hi - static_cast<LD>(lo) > 1e3 * tol)) {
    CHECK(edges.front() == lo, "the first edge is " << edges.front() << " and the lowest value " << lo);
    CHECK(std::abs(edges.back() - static_cast<LD>(hi)) <= tol, "the last edge is " << edges.back() << " and the highest value " << hi);
  }
  auto bin = binsOf(n, [&](const std::vector<double>& v) { return Histogram<T, double>(data.begin(), data.end(), v.begin(), v.end(), Rule<T>()).getCounts(); });
  auto all = h.getCounts();
  for (std::size_t b = 0; b < h.size(); ++b)
    CHECK(all[b] == std::count(bin.begin(), bin.end(), static_cast<int>(b)), "bin " << b << " counts " << all[b] << " values");
  for (std::size_t k = 0; k < n; ++k) {
    CHECK(bin[k] >= 0, data[k] << " is in no bin of " << pbt::str(edges));
    LD   a = edges[bin[k]], z = edges[bin[k] + 1];
    bool last = bin[k] + 1 == static_cast<int>(h.size());
    CHECK(data[k] >= a - tol && (data[k] <= z + tol && (last || !std::is_integral<T>::value || data[k] < z)), data[k] << " is in the bin from " << edges[bin[k]] << " to " << edges[bin[k] + 1]);
  }
  // the strategy alone, away from the values it has seen
  Rule<T> rule;
  rule.computeBins(data.begin(), data.end());
  CHECK(rule.getBinCount() == h.size() && rule.getEdges() == edges, "the strategy has other edges on its own");
  if (lo != hi)
    for (int k = 0; k < 4; ++k) {
      T    v   = value<T>(c, lo - 30., hi + 30.);
      auto idx = rule.getBinIndex(v);
      if (v < edges.front() - tol || v > edges.back() + tol)
        CHECK(idx < 0 || idx >= static_cast<ssize_t>(h.size()), v << " is outside of " << edges.front() << ", " << edges.back() << " and goes to bin " << idx);
    }
}

struct Model {
  std::vector<double> edges, counts;
};

template <typename T, typename W>
void checkStats(const Histogram<T, W>& h, const Model& m, const std::vector<std::size_t>& kept) {
  LD total = 0, sum = 0, var = 0, big = 0;
  for (auto b : kept) {
    LD center = (static_cast<LD>(m.edges[b]) + m.edges[b + 1]) / 2;
    total += m.counts[b];
    sum += m.counts[b] * center;
    big = std::max(big, std::max(std::abs(static_cast<LD>(m.edges[b])), std::abs(static_cast<LD>(m.edges[b + 1]))));
  }
  if (!(total > 0))
    return;
  LD mean = sum / total;
  for (auto b : kept) {
    LD d = (static_cast<LD>(m.edges[b]) + m.edges[b + 1]) / 2 - mean;
    var += m.counts[b] * d * d / total;
  }
  T a_mean, a_median, a_sigma;
  std::tie(a_mean, a_median, a_sigma) = h.getStats();
  LD eps = 64 * std::max<LD>(std::numeric_limits<T>::epsilon(), std::numeric_limits<W>::epsilon());
  CHECK(std::abs(a_mean - mean) <= eps * big, "the mean is " << a_mean << " instead of " << static_cast<double>(mean));
  CHECK(a_sigma >= 0 && std::abs(static_cast<LD>(a_sigma) * a_sigma - var) <= eps * big * big, "sigma is " << a_sigma << " instead of " << static_cast<double>(std::sqrt(var)));
  // half of the counts are below the median, when each bin is spread evenly
  auto below = [&](LD x) {
    LD s = 0;
    for (auto b : kept) {
      LD lo = m.edges[b], hi = m.edges[b + 1];
      if (hi > lo)
        s += m.counts[b] * std::min<LD>(1, std::max<LD>(0, (x - lo) / (hi - lo)));
      else
        s += x > lo ? m.counts[b] : x == lo ? m.counts[b] / 2 : 0;
    }
    return s;
  };
  LD dx = eps * big + 1e-12L;
  CHECK(below(a_median - dx) <= total / 2 * (1 + eps) && below(a_median + dx) >= total / 2 * (1 - eps),
        "the median is " << a_median << ", but " << static_cast<double>(below(a_median)) << " of " << static_cast<double>(total) << " are below it");
}

template <typename T, typename W>
Model genModel(Case& c, std::vector<T>& edges, std::vector<T>& data, std::vector<W>& w) {
  edges = genEdges<T>(c);
  if (c.b()) {  // all of the same width
    T start = edges.front(), step = edges[1] - edges[0];
    for (std::size_t k = 0; k < edges.size(); ++k)
      edges[k] = static_cast<T>(start + static_cast<T>(k) * step);
  }
  Model m;
  m.edges.assign(edges.begin(), edges.end());
  m.counts.assign(edges.size() - 1, 0);
  std::size_t mode = c.n(0, 2), n = c.size(1, 40, 10000, 400);
  std::size_t lone = c.n(0, edges.size() - 2);
  for (std::size_t k = 0; k < n; ++k) {
    std::size_t b = mode == 0 ? c.n(0, edges.size() - 2) : mode == 1 ? lone : std::min(edges.size() - 2, lone + c.n(0, 1) * c.n(0, 5));
    // multiples of 1/4 so that the sums are exact
    W weight = static_cast<W>(c.pick({4, 4, 1, 2, 7, 0, 40})) / 4;
    data.push_back(c.b() ? edges[b] : static_cast<T>(edges[b] / 2 + edges[b + 1] / 2));
    b = std::min<std::size_t>(std::upper_bound(edges.begin(), edges.end(), data.back()) - edges.begin(), edges.size() - 1) - 1;
    w.push_back(weight);
    m.counts[b] += static_cast<double>(weight);
  }
  return m;
}

template <typename T, typename W>
void statsCase(Case& c) {
  std::vector<T> edges, data;
  std::vector<W> w;
  auto           m = genModel(c, edges, data, w);
  c.describe([&](std::ostream& o) { o << "edges=" << pbt::str(edges) << " counts=" << pbt::str(m.counts); });
  c.nontrivial(std::count_if(m.counts.begin(), m.counts.end(), [](double x) { return x > 0; }) > 1);
  Histogram<T, W>          h(data.begin(), data.end(), w.begin(), w.end(), Binning::EdgeVector<T>(edges));
  std::vector<std::size_t> kept(m.counts.size());
  std::iota(kept.begin(), kept.end(), 0);
  checkStats(h, m, kept);
}

// A history of clips, copies and moves
template <typename T, typename W>
void clipCase(Case& c) {
  std::vector<T> edges, data;
  std::vector<W> w;
  auto           m = genModel(c, edges, data, w);
  struct Live {
    std::unique_ptr<Histogram<T, W>> h;
    std::size_t                      a, b;
  };
  std::vector<Live> live;
  live.push_back(Live{std::unique_ptr<Histogram<T, W>>(new Histogram<T, W>(data.begin(), data.end(), w.begin(), w.end(), Binning::EdgeVector<T>(edges))), 0, m.counts.size() - 1});
  std::ostringstream log;
  log << "edges=" << pbt::str(edges) << " counts=" << pbt::str(m.counts);
  std::size_t steps = c.len(1, 8), clips = 0;
  auto        verify = [&] {
    for (std::size_t k = 0; k < live.size(); ++k) {
      auto&                    l = live[k];
      std::vector<std::size_t> kept;
      std::vector<double>      counts;
      std::vector<T>           lims;
      for (std::size_t b = l.a; b <= l.b; ++b) {
        kept.push_back(b);
        counts.push_back(m.counts[b]);
        lims.push_back(edges[b]);
      }
      lims.push_back(edges[l.b + 1]);
      CHECK(l.h->size() == kept.size(), "histogram " << k << " has " << l.h->size() << " bins instead of " << kept.size());
      auto got = l.h->getCounts();
      CHECK(std::equal(got.begin(), got.end(), counts.begin(), counts.end()), "histogram " << k << " has the counts " << pbt::str(got) << " instead of " << pbt::str(counts));
      CHECK(l.h->getEdges() == lims, "histogram " << k << " has the edges " << pbt::str(l.h->getEdges()) << " instead of " << pbt::str(lims));
      CHECK(l.h->getBins().size() == kept.size(), "histogram " << k << " has " << l.h->getBins().size() << " centres for " << kept.size() << " bins");
      for (std::size_t i = 0; i < kept.size(); ++i)
        CHECK(l.h->getBinEdges(i) == std::make_pair(lims[i], lims[i + 1]) && std::abs(l.h->getBins()[i] - (static_cast<LD>(lims[i]) + lims[i + 1]) / 2) <= 1e-5, "bin " << i << " of histogram " << k << " is another one");
      checkStats(*l.h, m, kept);
    }
  };
  for (std::size_t s = 0; s < steps; ++s) {
    std::size_t k = c.n(0, live.size() - 1);
    auto&       l = live[k];
    switch (c.weighted({5, 2, 1, 1})) {
    case 0: {
      // at least one of the bins that are left, in part
      std::size_t lo = c.n(0, l.b), hi = c.n(std::max(lo, l.a), m.counts.size() - 1);
      auto        in = [&](std::size_t b) { return c.b() ? edges[b] : static_cast<T>(edges[b] / 2 + edges[b + 1] / 2); };
      T           from = c.b(1, 6) ? static_cast<T>(edges.front() - 1 - c.n(0, 30)) : in(lo);
      T           to   = c.b(1, 6) ? static_cast<T>(edges.back() + 1 + c.n(0, 30)) : in(hi);
      if (from > to)
        std::swap(from, to);
      log << " clip" << k << "(" << from << "," << to << ")";
      c.describe([&](std::ostream& o) { o << log.str(); });
      auto bin = [&](T v) { return std::min<std::size_t>(std::upper_bound(edges.begin(), edges.end(), v) - edges.begin(), edges.size() - 1) - 1; };
      if (from >= edges.front() && bin(from) > l.a && bin(from) <= l.b)
        l.a = bin(from);
      if (to <= edges.back() && bin(to) >= l.a && bin(to) < l.b)
        l.b = bin(to);
      l.h->clip(from, to);
      ++clips;
      break;
    }
    case 1:
      log << " copy" << k;
      live.push_back(Live{std::unique_ptr<Histogram<T, W>>(new Histogram<T, W>(*l.h)), l.a, l.b});
      break;
    case 2: {
      log << " move" << k;
      std::unique_ptr<Histogram<T, W>> moved(new Histogram<T, W>(std::move(*l.h)));
      l.h = std::move(moved);
      break;
    }
    default: {
      log << " inverted" << k;
      bool threw = false;
      try {
        l.h->clip(edges.back(), edges.front());
      } catch (const Elements::Exception&) {
        threw = true;
      }
      CHECK(threw, "a clip from " << edges.back() << " to " << edges.front() << " did not throw");
    }
    }
    c.describe([&](std::ostream& o) { o << log.str(); });
    verify();
  }
  c.nontrivial(clips > 0 && m.counts.size() > 2);
}

}  // namespace

PBT_TEST(given_edges, pbt::cases(60000, 3000000)) {
  switch (c.n(0, 2)) {
  case 0: return edgesCase<double>(c);
  case 1: return edgesCase<float>(c);
  default: return edgesCase<int>(c);
  }
}
PBT_TEST(square_root, pbt::cases(60000, 3000000)) {
  switch (c.n(0, 2)) {
  case 0: return autoCase<double, Binning::Sqrt>(c, false);
  case 1: return autoCase<float, Binning::Sqrt>(c, false);
  default: return autoCase<int, Binning::Sqrt>(c, false);
  }
}
PBT_TEST(scott, pbt::cases(60000, 3000000)) {
  switch (c.n(0, 2)) {
  case 0: return autoCase<double, Binning::Scott>(c, true);
  case 1: return autoCase<float, Binning::Scott>(c, true);
  default: return autoCase<int, Binning::Scott>(c, true);
  }
}
PBT_TEST(statistics, pbt::cases(60000, 3000000)) {
  if (c.b())
    statsCase<float, float>(c);
  else
    statsCase<double, double>(c);
}
PBT_TEST(clip, pbt::cases(30000, 1500000)) {
  if (c.b())
    clipCase<float, float>(c);
  else
    clipCase<double, double>(c);
}
