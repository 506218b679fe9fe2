// C23: modes of a sampled probability density
#include "MathUtils/PDF/PdfModeExtraction.h"
#include "XYDataset/XYDataset.h"
#include "common/pbt.h"

using namespace Euclid::MathUtils;
using pbt::Case;
using LD = long double;

namespace {
const LD EPS = std::numeric_limits<double>::epsilon();

struct Pdf {
  std::vector<double> x, y;
  double              merge = 0, x_unit = 1;
  LD                  dx(std::size_t i) const {
    std::size_t n = x.size();
    return i == 0 ? static_cast<LD>(x[1]) - x[0] : i + 1 == n ? static_cast<LD>(x[n - 1]) - x[n - 2] : (static_cast<LD>(x[i + 1]) - x[i - 1]) / 2;
  }
  LD area(std::size_t a, std::size_t b) const {
    LD s = 0;
    for (std::size_t i = a; i <= b; ++i)
      s += y[i] * dx(i);
    return s;
  }
  LD mean(std::size_t a, std::size_t b) const {
    LD s = 0;
    for (std::size_t i = a; i <= b; ++i)
      s += x[i] * (y[i] * dx(i));
    return s / area(a, b);
  }
};

// Positive, all values different (so that the highest sample and the rises are unambiguous), zeros now and then
Pdf gen(Case& c) {
  Pdf         p;
  std::size_t n = c.size(3, 40, 3000, 300), peaks = c.n(1, 4);
  bool        even = c.b(), noise = c.b(), zeros = c.b(1, 3);
  double      x = c.real(-5, 5);
  for (std::size_t k = 0; k < n; ++k, x += even ? 0.25 : c.real(0.05, 1)) {
    p.x.push_back(x);
    p.y.push_back(noise ? c.real(0, 1) : 0.);
  }
  for (std::size_t k = 0; k < peaks; ++k) {
    double at = c.real(p.x.front(), p.x.back()), w = c.real(0.1, 3), h = c.real(0.2, 5);
    for (std::size_t i = 0; i < n; ++i)
      p.y[i] += h * std::exp(-0.5 * std::pow((p.x[i] - at) / w, 2));
  }
  if (zeros)
    for (std::size_t i = 0; i < n; ++i)
      if (c.b(1, 5))
        p.y[i] = 0;
  std::set<double> seen;
  for (auto& v : p.y)
    if (v < 1e-6)
      v = 0;
  for (auto& v : p.y)
    while (v != 0 && !seen.insert(v).second)
      v *= 1.001;
  if (*std::max_element(p.y.begin(), p.y.end()) < 1e-3)
    p.y[c.n(0, n - 1)] = 1;
  for (auto& v : p.y)
    if (v < 1e-6)
      v = 0;
  // Nothing depends on the units, and powers of two are exact
  int yu = static_cast<int>(c.b() ? 0 : c.i(-100, 100)), xu = static_cast<int>(c.b() ? 0 : c.i(-60, 60));
  for (auto& v : p.y)
    v = std::ldexp(v, yu);
  for (auto& v : p.x)
    v = std::ldexp(v, xu);
  p.x_unit = std::ldexp(1., xu);
  p.merge = c.pick({0., 1., 0.5, 0.1, 0.9});
  return p;
}

void describe(Case& c, const Pdf& p, std::size_t n) {
  c.describe([&](std::ostream& o) { o << "x=" << pbt::str(p.x) << " pdf=" << pbt::str(p.y) << " merge=" << p.merge << " n=" << n; });
}

std::vector<ModeInfo> highest(Case& c, Pdf p, std::size_t n) {
  return c.b() ? extractNHighestModes(p.x, p.y, p.merge, n) : extractNHighestModes(Euclid::XYDataset::XYDataset::factory(p.x, p.y), p.merge, n);
}
std::vector<ModeInfo> biggest(Case& c, Pdf p, std::size_t n) {
  return c.b() ? extractNBigestModes(p.x, p.y, p.merge, n) : extractNBigestModes(Euclid::XYDataset::XYDataset::factory(p.x, p.y), p.merge, n);
}

struct Range {
  std::size_t a, b;
};

// Where the mode around the peak may begin and end: down to where the density rises again, once it is below the threshold.
// An outermost sample of the whole density may be counted in or not; zeros do not matter.
std::vector<Range> ranges(const Pdf& p, std::size_t peak) {
  double      threshold = (1.0 - p.merge) * p.y[peak];
  std::size_t n = p.y.size(), a = peak, b = peak;
  while (a > 0 && p.y[a - 1] != 0 && !(p.y[a] < threshold && p.y[a - 1] >= p.y[a]))
    --a;
  while (b + 1 < n && p.y[b + 1] != 0 && !(p.y[b] < threshold && p.y[b + 1] >= p.y[b]))
    ++b;
  std::vector<Range> r{{a, b}};
  if (a == 0 && a < peak)
    r.push_back({1, b});
  if (b + 1 == n && b > peak) {
    r.push_back({a, b - 1});
    if (a == 0 && a < peak)
      r.push_back({1, b - 1});
  }
  return r;
}

}  // namespace

// Peeling: the highest sample is the first mode; without its range, the highest of the rest is the next
PBT_TEST(highest_modes, pbt::cases(60000, 3000000)) {
  auto        p = gen(c);
  std::size_t n = c.n(1, 5);
  describe(c, p, n);
  auto modes = highest(c, p, n);
  CHECK(modes.size() <= n, modes.size() << " modes");
  c.nontrivial(modes.size() > 1);
  Pdf         rest = p;
  std::size_t k    = 0;
  for (; k < n; ++k) {
    std::size_t peak = std::max_element(rest.y.begin(), rest.y.end()) - rest.y.begin();
    if (rest.y[peak] == 0)
      break;
    CHECK(k < modes.size(), "only " << modes.size() << " modes, but at " << rest.x[peak] << " there is one more");
    auto& m = modes[k];
    CHECK(m.getHighestSamplePosition() == rest.x[peak], "mode " << k << " is at " << m.getHighestSamplePosition() << ", the highest sample at " << rest.x[peak]);
    bool  found = false;
    Range used{0, 0};
    for (auto& r : ranges(rest, peak)) {
      LD area = rest.area(r.a, r.b), mean = rest.mean(r.a, r.b);
      if (std::abs(m.getModeArea() - area) <= 1e-12 * area && std::abs(m.getMeanPosition() - mean) <= 1e-12 * (std::abs(mean) + 50 * p.x_unit)) {
        found = true;
        used  = r;
        break;
      }
    }
    CHECK(found, "mode " << k << " at " << rest.x[peak] << " has area " << m.getModeArea() << " and mean " << m.getMeanPosition() << "; from "
                         << rest.x[ranges(rest, peak)[0].a] << " to " << rest.x[ranges(rest, peak)[0].b] << " they are "
                         << static_cast<double>(rest.area(ranges(rest, peak)[0].a, ranges(rest, peak)[0].b)) << " and " << static_cast<double>(rest.mean(ranges(rest, peak)[0].a, ranges(rest, peak)[0].b)));
    // vertex of the parabola through the highest sample and its neighbours
    std::size_t i = std::min(std::max<std::size_t>(peak, 1), p.x.size() - 2);
    LD x0 = rest.x[i - 1], x1 = rest.x[i], x2 = rest.x[i + 1], y0 = rest.y[i - 1], y1 = rest.y[i], y2 = rest.y[i + 1];
    LD d1 = (y1 - y0) / (x1 - x0), d2 = (y2 - y1) / (x2 - x1), curve = (d2 - d1) / (x2 - x0);
    if (std::abs(curve) * (x2 - x0) * (x2 - x0) > 1e-4 * rest.y[peak]) {
      LD vertex = (x0 + x1) / 2 - d1 / (2 * curve);
      vertex    = std::min<LD>(std::max<LD>(vertex, p.x.front()), p.x.back());
      CHECK(std::abs(m.getInterpolatedMaxPosition() - vertex) <= 1e-6 * p.x_unit, "mode " << k << " is interpolated at " << m.getInterpolatedMaxPosition() << ", the parabola has its vertex at " << static_cast<double>(vertex));
    }
    CHECK(m.getInterpolatedMaxPosition() >= p.x.front() && m.getInterpolatedMaxPosition() <= p.x.back(), "interpolated outside of the density");
    for (std::size_t j = used.a; j <= used.b; ++j)
      rest.y[j] = 0;
  }
  for (; k < modes.size(); ++k)
    CHECK(modes[k].getModeArea() == 0, "a mode of nothing has an area");
}

// The modes of biggest area are those of all the modes, biggest first
PBT_TEST(biggest_modes, pbt::cases(60000, 3000000)) {
  auto        p   = gen(c);
  auto        all = highest(c, p, p.x.size());
  std::size_t n   = c.n(1, 6);
  describe(c, p, n);
  std::vector<double> areas;
  for (auto& m : all)
    if (m.getModeArea() > 0)
      areas.push_back(m.getModeArea());
  std::sort(areas.rbegin(), areas.rend());
  auto modes = biggest(c, p, n);
  c.nontrivial(areas.size() > 1);
  c.label("more modes than asked for", areas.size() > n);
  CHECK(modes.size() <= n, modes.size() << " modes instead of at most " << n);
  for (std::size_t k = 1; k < modes.size(); ++k)
    CHECK(modes[k - 1].getModeArea() >= modes[k].getModeArea(), "the modes are not in the order of their areas");
  for (auto& m : modes)
    if (m.getModeArea() > 0) {
      bool known = false;
      for (auto& o : all)
        known = known || (o.getHighestSamplePosition() == m.getHighestSamplePosition() && o.getModeArea() == m.getModeArea() &&
                          o.getMeanPosition() == m.getMeanPosition() && o.getInterpolatedMaxPosition() == m.getInterpolatedMaxPosition());
      CHECK(known, "the mode at " << m.getHighestSamplePosition() << " is none of the modes");
    }
  // the search is cut after three times as many modes as asked for
  if (areas.size() <= 3 * n)
    for (std::size_t k = 0; k < n && k < areas.size(); ++k) {
      CHECK(k < modes.size(), "only " << modes.size() << " modes of " << areas.size());
      CHECK(modes[k].getModeArea() == areas[k], "mode " << k << " has area " << modes[k].getModeArea() << ", there is one of " << areas[k]);
    }
}
