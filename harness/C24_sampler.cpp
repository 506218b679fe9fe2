// C24: samples follow the density of the grid they are drawn from
#include "ElementsKernel/Exception.h"
#include "GridContainer/GridContainer.h"
#include "MathUtils/PDF/NdSampler.h"
#include "MathUtils/PDF/NdSamplerFromGrid.h"
#include "NdArray/NdArray.h"
#include "common/pbt.h"
#include <random>

using namespace Euclid::MathUtils;
using Euclid::NdArray::NdArray;
using pbt::Case;

namespace {

struct Axis {
  bool                discrete;
  std::vector<double> knots;
};

// Axis 0 is the first element of the samples, the fastest one of the values
struct Density {
  std::vector<Axis>   axes;
  std::vector<double> values;  // axis 0 fastest
  std::size_t         size() const {
    std::size_t n = 1;
    for (auto& a : axes)
      n *= a.knots.size();
    return n;
  }
  std::vector<std::size_t> shape() const {
    std::vector<std::size_t> s;
    for (std::size_t k = axes.size(); k-- > 0;)
      s.push_back(axes[k].knots.size());
    return s;
  }
  double weight(std::size_t axis, std::size_t i) const {
    auto& a = axes[axis];
    if (a.discrete || a.knots.size() == 1)
      return 1;
    double w = 0;
    if (i > 0)
      w += (a.knots[i] - a.knots[i - 1]) / 2;
    if (i + 1 < a.knots.size())
      w += (a.knots[i + 1] - a.knots[i]) / 2;
    return w;
  }
  // Weight of knot i in the interpolation at x
  double hat(std::size_t axis, std::size_t i, double x) const {
    auto& k = axes[axis].knots;
    if (axes[axis].discrete || k.size() == 1)
      return k[i] == x ? 1 : 0;
    if (i > 0 && x >= k[i - 1] && x <= k[i])
      return (x - k[i - 1]) / (k[i] - k[i - 1]);
    if (i + 1 < k.size() && x >= k[i] && x <= k[i + 1])
      return (k[i + 1] - x) / (k[i + 1] - k[i]);
    return 0;
  }
  // Density along the axis, at its knots: lower axes integrated, higher ones at x
  std::vector<double> conditional(std::size_t axis, const std::vector<double>& x) const {
    std::vector<double> out(axes[axis].knots.size(), 0.);
    for (std::size_t cell = 0; cell < values.size(); ++cell) {
      double      w = values[cell];
      std::size_t r = cell, at = 0;
      for (std::size_t k = 0; k < axes.size() && w != 0; ++k) {
        std::size_t i = r % axes[k].knots.size();
        r /= axes[k].knots.size();
        if (k < axis)
          w *= weight(k, i);
        else if (k == axis)
          at = i;
        else
          w *= hat(k, i, x[k]);
      }
      if (w != 0)
        out[at] += w;
    }
    return out;
  }
};

// Position of x in the distribution along the axis, from 0 to 1; inside of a jump anywhere, by v
double position(const Density& d, std::size_t axis, const std::vector<double>& pdf, double x, double v, bool& possible) {
  auto&  k     = d.axes[axis].knots;
  double total = 0, below = 0;
  if (d.axes[axis].discrete) {
    std::size_t at = std::find(k.begin(), k.end(), x) - k.begin();
    possible       = at < k.size() && pdf[at] > 0;
    for (std::size_t i = 0; i < k.size(); ++i) {
      total += pdf[i];
      if (i < at)
        below += pdf[i];
    }
    return possible ? (below + v * pdf[at]) / total : 0;
  }
  possible = x >= k.front() && x <= k.back();
  if (k.size() == 1)
    return v;
  for (std::size_t i = 1; i < k.size(); ++i) {
    total += (k[i] - k[i - 1]) * (pdf[i] + pdf[i - 1]) / 2;
    if (x >= k[i])
      below = total;
    else if (x > k[i - 1]) {
      double t = x - k[i - 1], s = (pdf[i] - pdf[i - 1]) / (k[i] - k[i - 1]);
      below    = below + pdf[i - 1] * t + s * t * t / 2;
    }
  }
  return below / total;
}

void judge(Case& c, const Density& d, const std::vector<std::vector<double>>& samples) {
  std::mt19937_64                  rng(12345);
  std::uniform_real_distribution<> unit(0, 1);
  std::size_t                      n = samples.size(), dims = d.axes.size();
  std::vector<std::vector<double>> u(dims);
  for (auto& x : samples)
    for (std::size_t k = 0; k < dims; ++k) {
      bool   possible = true;
      double p        = position(d, k, d.conditional(k, x), x[k], unit(rng), possible);
      CHECK(possible, "the sample " << pbt::str(x) << " has no probability (axis " << k << ")");
      u[k].push_back(p);
    }
  for (std::size_t k = 0; k < dims; ++k) {
    auto s = u[k];
    std::sort(s.begin(), s.end());
    double D = 0;
    for (std::size_t i = 0; i < n; ++i)
      D = std::max({D, s[i] - static_cast<double>(i) / n, static_cast<double>(i + 1) / n - s[i]});
    // Kolmogorov: exceeded by chance once in 10^12
    CHECK(D * std::sqrt(static_cast<double>(n)) < 3.8, "axis " << k << " of the samples does not follow the density (distance " << D << " of " << n << " samples)");
    for (std::size_t j = 0; j < k; ++j) {
      std::vector<double> cells(16, 0.);
      for (std::size_t i = 0; i < n; ++i)
        cells[std::min(3, static_cast<int>(u[k][i] * 4)) * 4 + std::min(3, static_cast<int>(u[j][i] * 4))] += 1;
      double chi = 0;
      for (auto o : cells)
        chi += (o - n / 16.) * (o - n / 16.) / (n / 16.);
      CHECK(chi < 95, "axes " << j << " and " << k << " of the samples do not follow the density together (chi2 " << chi << ")");
    }
  }
}

template <typename T>
T cast(double v) {
  return static_cast<T>(v);
}
template <typename T>
std::vector<T> castAll(const std::vector<double>& v) {
  std::vector<T> out;
  for (auto x : v)
    out.push_back(cast<T>(x));
  return out;
}

Density gen(Case& c, const std::vector<bool>& discrete) {
  Density d;
  for (bool disc : discrete) {
    Axis        a{disc, {}};
    std::size_t n = c.n(1, discrete.size() > 2 ? 4 : 6);
    double      x = disc ? static_cast<double>(c.i(-3, 3)) : c.real(-10, 10);
    for (std::size_t i = 0; i < n; ++i, x += disc ? static_cast<double>(c.i(1, 3)) : 0.1 + c.real(0, 3))
      a.knots.push_back(x);
    d.axes.push_back(a);
  }
  unsigned zeros = static_cast<unsigned>(c.n(0, 2));
  for (std::size_t i = 0, n = d.size(); i < n; ++i)
    d.values.push_back(c.n(0, 4) < zeros ? 0. : c.b() ? static_cast<double>(c.i(1, 5)) : c.real(0.01, 3));
  if (*std::max_element(d.values.begin(), d.values.end()) == 0)
    d.values[c.n(0, d.values.size() - 1)] = 1;
  // The density needs no normalization
  double unit = std::ldexp(1., static_cast<int>(c.b() ? 0 : c.i(-60, 60)));
  for (auto& v : d.values)
    v *= unit;
  c.describe([&](std::ostream& o) {
    for (auto& a : d.axes)
      o << (a.discrete ? "discrete " : "axis ") << pbt::str(a.knots) << " ";
    o << "values (first axis fastest) " << pbt::str(d.values);
  });
  c.nontrivial(d.values.size() > 2);
  return d;
}

const std::size_t DRAWS = 1500;

template <typename Sampler, typename... T, std::size_t... I>
void drawAndJudge(Case& c, const Density& d, const Sampler& sampler, std::index_sequence<I...>, std::tuple<T...>*) {
  std::mt19937                     rng(static_cast<unsigned>(c.draw(1000000)));
  std::vector<std::tuple<T...>>    got;
  if (c.b()) {
    got = sampler.draw(DRAWS, rng);
  } else {
    got.resize(DRAWS);
    sampler.draw(DRAWS, rng, got);
    std::vector<std::tuple<T...>> wrong(3);
    CHECK_THROWS(sampler.draw(4, rng, wrong), Elements::Exception, "room for another number of samples");
  }
  CHECK(got.size() == DRAWS, got.size() << " samples");
  std::vector<std::vector<double>> samples;
  for (auto& s : got)
    samples.push_back({static_cast<double>(std::get<I>(s))...});
  judge(c, d, samples);
}

template <typename... T, std::size_t... I>
void fromArray(Case& c, std::index_sequence<I...> seq) {
  auto                d = gen(c, {!std::is_floating_point<T>::value...});
  NdSampler<T...>     sampler(std::make_tuple(castAll<T>(d.axes[I].knots)...), NdArray<double>(d.shape(), d.values));
  drawAndJudge(c, d, sampler, seq, static_cast<std::tuple<T...>*>(nullptr));
}

// The part of the density with one knot of the axis
Density restricted(const Density& d, std::size_t axis, std::size_t index) {
  Density r;
  r.axes             = d.axes;
  r.axes[axis].knots = {d.axes[axis].knots[index]};
  std::size_t below = 1, n = d.axes[axis].knots.size();
  for (std::size_t k = 0; k < axis; ++k)
    below *= d.axes[k].knots.size();
  for (std::size_t cell = 0; cell < d.values.size(); ++cell)
    if (cell / below % n == index)
      r.values.push_back(d.values[cell]);
  return r;
}

template <std::size_t I>
struct Slices {
  // The slice of the grid with one knot of the axis
  template <typename Grid>
  static Grid at(Grid& grid, std::size_t axis, std::size_t index) {
    return axis == I ? grid.template fixAxisByIndex<I>(index) : Slices<I - 1>::at(grid, axis, index);
  }
};
template <>
struct Slices<0> {
  template <typename Grid>
  static Grid at(Grid& grid, std::size_t, std::size_t index) {
    return grid.template fixAxisByIndex<0>(index);
  }
};

template <typename... T, std::size_t... I>
void fromGrid(Case& c, std::index_sequence<I...> seq) {
  auto d = gen(c, {!std::is_floating_point<T>::value...});
  Euclid::GridContainer::GridContainer<std::vector<double>, T...> grid(Euclid::GridContainer::GridAxis<T>("axis", castAll<T>(d.axes[I].knots))...);
  std::copy(d.values.begin(), d.values.end(), grid.begin());
  if (c.b(1, 3)) {
    std::size_t axis = c.n(0, sizeof...(T) - 1), index = c.n(0, d.axes[axis].knots.size() - 1);
    auto        part = restricted(d, axis, index);
    if (*std::max_element(part.values.begin(), part.values.end()) == 0)
      throw pbt::Discard();
    c.label("slice", d.axes[axis].knots.size() > 1);
    c.describe([&](std::ostream& o) { o << " slice of axis " << axis << " at knot " << index; });
    auto slice   = Slices<sizeof...(T) - 1>::at(grid, axis, index);
    auto sampler = createSamplerFromGrid(slice);
    drawAndJudge(c, part, *sampler, seq, static_cast<std::tuple<T...>*>(nullptr));
    return;
  }
  auto sampler = createSamplerFromGrid(grid);
  drawAndJudge(c, d, *sampler, seq, static_cast<std::tuple<T...>*>(nullptr));
}

// The cells hold the values of one more axis
template <typename Cell, typename... T, std::size_t... I>
void fromCells(Case& c, bool implicit, std::index_sequence<I...>) {
  auto d = gen(c, {!std::is_floating_point<Cell>::value, !std::is_floating_point<T>::value...});
  if (implicit)
    for (std::size_t i = 0; i < d.axes[0].knots.size(); ++i)
      d.axes[0].knots[i] = static_cast<double>(i);
  Euclid::GridContainer::GridContainer<std::vector<std::vector<double>>, T...> grid(Euclid::GridContainer::GridAxis<T>("axis", castAll<T>(d.axes[I + 1].knots))...);
  std::size_t n = d.axes[0].knots.size(), at = 0;
  for (auto& cell : grid) {
    cell.assign(d.values.begin() + at, d.values.begin() + at + n);
    at += n;
  }
  auto seq = std::make_index_sequence<sizeof...(T) + 1>();
  if (c.b(1, 3)) {
    std::size_t axis = c.n(0, sizeof...(T) - 1), index = c.n(0, d.axes[axis + 1].knots.size() - 1);
    auto        part = restricted(d, axis + 1, index);
    if (*std::max_element(part.values.begin(), part.values.end()) == 0)
      throw pbt::Discard();
    c.label("slice", d.axes[axis + 1].knots.size() > 1);
    c.describe([&](std::ostream& o) { o << " slice of axis " << axis + 1 << " at knot " << index; });
    auto slice = Slices<sizeof...(T) - 1>::at(grid, axis, index);
    if (implicit)
      drawAndJudge(c, part, *createSamplerFromGrid(slice), seq, static_cast<std::tuple<std::size_t, T...>*>(nullptr));
    else
      drawAndJudge(c, part, *createSamplerFromGrid(slice, castAll<Cell>(d.axes[0].knots)), seq, static_cast<std::tuple<Cell, T...>*>(nullptr));
    return;
  }
  if (implicit)
    drawAndJudge(c, d, *createSamplerFromGrid(grid), seq, static_cast<std::tuple<std::size_t, T...>*>(nullptr));
  else
    drawAndJudge(c, d, *createSamplerFromGrid(grid, castAll<Cell>(d.axes[0].knots)), seq, static_cast<std::tuple<Cell, T...>*>(nullptr));
}

}  // namespace

PBT_TEST(one_axis, pbt::cases(600, 20000)) {
  if (c.b()) {
    auto              d = gen(c, {false});
    NdSampler<double> s(d.axes[0].knots, NdArray<double>(d.shape(), d.values));
    drawAndJudge(c, d, s, std::make_index_sequence<1>(), static_cast<std::tuple<double>*>(nullptr));
  } else {
    auto           d = gen(c, {true});
    NdSampler<int> s(castAll<int>(d.axes[0].knots), NdArray<double>(d.shape(), d.values));
    drawAndJudge(c, d, s, std::make_index_sequence<1>(), static_cast<std::tuple<int>*>(nullptr));
  }
}

PBT_TEST(several_axes, pbt::cases(700, 30000)) {
  switch (c.n(0, 5)) {
  case 0: fromArray<double, double>(c, std::make_index_sequence<2>()); break;
  case 1: fromArray<int, double>(c, std::make_index_sequence<2>()); break;
  case 2: fromArray<double, int>(c, std::make_index_sequence<2>()); break;
  case 3: fromArray<int, int>(c, std::make_index_sequence<2>()); break;
  case 4: fromArray<double, double, double>(c, std::make_index_sequence<3>()); break;
  default: fromArray<int, double, int>(c, std::make_index_sequence<3>()); break;
  }
}

PBT_TEST(grids, pbt::cases(700, 30000)) {
  switch (c.n(0, 5)) {
  case 0: fromGrid<double, double>(c, std::make_index_sequence<2>()); break;
  case 1: fromGrid<int, double, double>(c, std::make_index_sequence<3>()); break;
  case 2: fromCells<double, double>(c, false, std::make_index_sequence<1>()); break;
  case 3: fromCells<double, int, double>(c, false, std::make_index_sequence<2>()); break;
  case 4: fromCells<std::size_t, double>(c, true, std::make_index_sequence<1>()); break;
  default: fromCells<std::size_t, double, int>(c, true, std::make_index_sequence<2>()); break;
  }
}

PBT_TEST(refused, pbt::cases(1000, 10000)) {
  auto d     = gen(c, {false, true});
  auto shape = d.shape();
  c.nontrivial();
  auto knots = std::make_tuple(d.axes[0].knots, castAll<int>(d.axes[1].knots));
  switch (c.n(0, 2)) {
  case 0: shape.push_back(1); break;
  case 1: std::get<0>(knots).push_back(1000.); break;
  default:
    if (d.axes[0].knots.size() < 2)
      throw pbt::Discard();
    std::swap(std::get<0>(knots)[0], std::get<0>(knots)[1]);
  }
  CHECK_THROWS((NdSampler<double, int>(knots, NdArray<double>(shape, d.values))), Elements::Exception, "grid that does not fit");
}
