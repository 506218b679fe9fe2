// C19: N-dimensional interpolation is multilinear in the continuous axes and exact in the discrete ones
#include "MathUtils/interpolation/GridInterpolation.h"
#include "MathUtils/interpolation/interpolation.h"
#include "NdArray/NdArray.h"
#include "common/pbt.h"

using namespace Euclid::MathUtils;
using Euclid::NdArray::NdArray;
using pbt::Case;
using LD = long double;

namespace {

const double EPS = std::numeric_limits<double>::epsilon();

// One axis of the model: continuous knots, or discrete labels in any order
struct Axis {
  bool                discrete = false;
  std::vector<double> knots;
};

struct Model {
  std::vector<Axis>        axes;    // axis 0 is the slowest one
  std::vector<double>      values;  // row-major
  bool                     extrapolate = false;
  std::vector<std::size_t> shape() const {
    std::vector<std::size_t> s;
    for (auto& a : axes)
      s.push_back(a.knots.size());
    return s;
  }
  // Value and rounding bound
  std::pair<LD, LD> eval(const std::vector<double>& x, std::size_t axis = 0, std::size_t offset = 0) const {
    if (axis == axes.size())
      return {values[offset], 0};
    auto&       k = axes[axis].knots;
    std::size_t n = k.size();
    auto        sub = [&](std::size_t i) { return eval(x, axis + 1, offset * n + i); };
    if (axes[axis].discrete) {
      auto i = std::find(k.begin(), k.end(), x[axis]) - k.begin();
      return static_cast<std::size_t>(i) == n ? std::pair<LD, LD>{0, 0} : sub(i);
    }
    if (!extrapolate && (x[axis] < k.front() || x[axis] > k.back()))
      return {0, 0};
    if (n == 1)
      return sub(0);
    std::size_t i = std::upper_bound(k.begin(), k.end(), x[axis]) - k.begin();
    i             = std::min(std::max<std::size_t>(i, 1), n - 1);
    // value on the interval below knot i, and its rounding
    auto on = [&](std::size_t j) {
      auto y0 = sub(j - 1), y1 = sub(j);
      LD   width = static_cast<LD>(k[j]) - k[j - 1], w = (static_cast<LD>(x[axis]) - k[j - 1]) / width;
      LD   reach = std::abs(x[axis]) + std::max(std::abs(k[j]), std::abs(k[j - 1]));
      LD   tol   = 32 * EPS * (std::abs(y0.first) + std::abs(y1.first) + std::abs(y1.first - y0.first) / width * reach);
      return std::pair<LD, LD>{y0.first + w * (y1.first - y0.first), tol + (y0.second + y1.second) * (1 + reach / width)};
    };
    auto r = on(i);
    if (x[axis] == k[i - 1] && i > 1)
      r.second = std::max(r.second, on(i - 1).second);  // the interval below will do as well
    return r;
  }
};

std::vector<double> genKnots(Case& c, bool discrete) {
  std::size_t         n = c.n(1, 5);
  std::vector<double> k;
  if (discrete) {
    std::vector<double> all{0, 1, 2, 3, 5, 8, -4, 100};
    c.shuffle(all);
    k.assign(all.begin(), all.begin() + n);
  } else {
    double x = c.real(-10, 10), unit = std::ldexp(1., static_cast<int>(c.b(2, 3) ? 0 : c.i(-60, 60)));
    for (std::size_t i = 0; i < n; ++i, x += c.b() ? static_cast<double>(c.i(1, 3)) : 0.1 + c.real(0, 4))
      k.push_back(x * unit);
  }
  return k;
}

void fill(Case& c, Model& m) {
  std::size_t n = 1;
  for (auto s : m.shape())
    n *= s;
  bool   ints = c.b();
  double unit = std::ldexp(1., static_cast<int>(c.b(2, 3) ? 0 : c.i(-100, 100)));
  for (std::size_t i = 0; i < n; ++i)
    m.values.push_back(unit * (ints ? static_cast<double>(c.i(-9, 9)) : c.real(-50, 50)));
}

std::vector<double> query(Case& c, const Model& m) {
  std::vector<double> x;
  bool                inside = c.b(2, 3);
  for (auto& a : m.axes) {
    double lo = a.knots.front(), hi = a.knots.back();
    if (a.discrete)
      x.push_back(inside || c.b() ? c.pick(a.knots) : static_cast<double>(c.i(-5, 9)));
    else
      switch (c.n(0, inside ? 2 : 4)) {
      case 0: x.push_back(lo + (hi - lo) * c.unit()); break;
      case 1: x.push_back(c.pick(a.knots)); break;
      case 2: x.push_back(lo + (hi - lo) * c.unit()); break;
      case 3: x.push_back(lo - c.real(0, 5) * (hi > lo ? hi - lo : 1.)); break;
      default: x.push_back(hi + c.real(0, 5) * (hi > lo ? hi - lo : 1.)); break;
      }
  }
  return x;
}

void describe(Case& c, const Model& m) {
  c.describe([&](std::ostream& o) {
    for (auto& a : m.axes)
      o << (a.discrete ? "discrete " : "axis ") << pbt::str(a.knots) << " ";
    o << "values " << pbt::str(m.values) << (m.extrapolate ? " extrapolate" : "");
  });
}

template <typename Call>
void compare(Case& c, const Model& m, Call call) {
  std::size_t                      queries = c.n(1, 10);
  std::vector<std::vector<double>> xs;
  std::vector<double>              all;
  for (std::size_t q = 0; q < queries; ++q) {
    auto   x   = query(c, m);
    auto   e   = m.eval(x);
    double got = call(x);
    xs.push_back(x);
    all.push_back(got);
    c.label("not zero", e.first != 0);
    CHECK(std::abs(got - e.first) <= e.second, "f" << pbt::str(x) << " = " << got << ", expected " << static_cast<double>(e.first) << " +- " << static_cast<double>(e.second));
  }
  pbt::sameAgain(c, call, xs, all);
}

template <std::size_t N, std::size_t... I>
double callN(const NAryFunction<N>& f, const std::vector<double>& x, std::index_sequence<I...>) {
  return f(x[I]...);
}

template <std::size_t N>
void continuous(Case& c) {
  Model          m;
  Coordinates<N> grid;
  for (std::size_t i = 0; i < N; ++i) {
    m.axes.push_back({false, genKnots(c, false)});
    grid[i] = m.axes[i].knots;
  }
  m.extrapolate = c.b();
  fill(c, m);
  describe(c, m);
  NdArray<double> values(m.shape(), m.values);
  auto            f = interpn<N>(grid, values, InterpolationType::LINEAR, m.extrapolate);
  if (c.b(1, 3)) {
    auto g = f->clone();
    f      = std::move(g);
  }
  c.nontrivial(N > 1 && m.values.size() > 3);
  compare(c, m, [&](const std::vector<double>& x) { return callN<N>(*f, x, std::make_index_sequence<N>()); });
}

enum class Label { A, B, C, D, E, F, G, H };
const std::vector<double> LABELS{0, 1, 2, 3, 5, 8, -4, 100};

template <typename T>
T cast(double v) {
  return static_cast<T>(v);
}
template <>
std::string cast<std::string>(double v) {
  return "v" + pbt::str(v);
}
template <>
Label cast<Label>(double v) {
  return static_cast<Label>(static_cast<int>(v));
}

template <typename T>
std::vector<T> castAll(const std::vector<double>& v) {
  std::vector<T> out;
  for (auto x : v)
    out.push_back(cast<T>(x));
  return out;
}

// The first type is the fastest axis of the array
template <typename... T, std::size_t... I>
void mixedImpl(Case& c, std::index_sequence<I...>) {
  constexpr std::size_t N = sizeof...(T);
  Model                 m;
  bool                  discrete[] = {!std::is_floating_point<T>::value...};
  for (std::size_t i = 0; i < N; ++i)
    m.axes.push_back({discrete[N - 1 - i], genKnots(c, discrete[N - 1 - i])});
  m.extrapolate = c.b();
  fill(c, m);
  describe(c, m);
  NdArray<double> values(m.shape(), m.values);
  auto            grid = std::make_tuple(castAll<T>(m.axes[N - 1 - I].knots)...);
  InterpN<T...>   original(grid, values, m.extrapolate);
  InterpN<T...>   f(original);
  c.nontrivial(m.values.size() > 3);
  compare(c, m, [&](const std::vector<double>& x) { return f(cast<T>(x[N - 1 - I])...); });
}
template <typename... T>
void mixed(Case& c) {
  mixedImpl<T...>(c, std::make_index_sequence<sizeof...(T)>());
}

}  // namespace

PBT_TEST(interpn, pbt::cases(30000, 1500000)) {
  switch (c.n(0, 3)) {
  case 0: continuous<2>(c); break;
  case 1: continuous<1>(c); break;
  case 2: continuous<3>(c); break;
  default: continuous<4>(c); break;
  }
}

PBT_TEST(grid_interpolation, pbt::cases(40000, 2000000)) {
  switch (c.n(0, 9)) {
  case 0: mixed<int>(c); break;
  case 1: mixed<double, int>(c); break;
  case 2: mixed<int, double>(c); break;
  case 3: mixed<std::string, double>(c); break;
  case 4: mixed<double, std::string, double>(c); break;
  case 5: mixed<Label, int>(c); break;
  case 6: mixed<int, double, Label, double>(c); break;
  case 7: mixed<double, double, int>(c); break;
  case 8: mixed<double>(c); break;
  default: mixed<double, double>(c); break;
  }
}

// Grids and values that do not fit each other, and knots out of order, are refused
PBT_TEST(refused, pbt::cases(20000, 400000)) {
  Model m;
  for (int i = 0; i < 3; ++i)
    m.axes.push_back({false, genKnots(c, false)});
  fill(c, m);
  auto        shape = m.shape();
  std::size_t kind  = c.n(0, 2), axis = c.n(0, 2);
  c.nontrivial();
  auto& k = m.axes[axis].knots;
  if (kind == 0) {
    if (k.size() < 2)
      throw pbt::Discard();
    std::size_t i = c.n(1, k.size() - 1);
    std::swap(k[c.n(0, i - 1)], k[i]);
  } else if (kind == 1) {
    if (c.b() || k.size() == 1)
      k.push_back(k.back() + 1);
    else
      k.pop_back();
  } else {
    shape.push_back(1);
  }
  describe(c, m);
  NdArray<double> values(shape, m.values);
  Coordinates<3>  grid{m.axes[0].knots, m.axes[1].knots, m.axes[2].knots};
  CHECK_THROWS(interpn<3>(grid, values, InterpolationType::LINEAR, c.b()), InterpolationException, "grid that does not fit");
}

PBT_TEST(only_linear, pbt::cases(8, 8)) {
  NdArray<double> values({2, 2}, {1, 2, 3, 4});
  c.nontrivial();
  CHECK_THROWS(interpn<2>(Coordinates<2>{std::vector<double>{0, 1}, std::vector<double>{0, 1}}, values, InterpolationType::CUBIC_SPLINE, c.b()),
               InterpolationException, "cubic interpolation in two dimensions");
}
