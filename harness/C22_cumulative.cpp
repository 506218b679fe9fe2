// C22: cumulative distributions and their inverse
#include "ElementsKernel/Exception.h"
#include "MathUtils/PDF/Cumulative.h"
#include "MathUtils/helpers/InverseCumulative.h"
#include "common/pbt.h"

using namespace Euclid::MathUtils;
using pbt::Case;
using LD = long double;

namespace {
const LD EPS = std::numeric_limits<double>::epsilon();

struct Samples {
  std::vector<double> x, pdf, cdf;
  double              total() const { return cdf.back(); }
};

// Whole numbers times a power of two: every sum is exact, whatever the unit of the density
Samples gen(Case& c, std::size_t max_n) {
  Samples     s;
  std::size_t n     = c.size(1, max_n, 100 * max_n, 300);
  unsigned    zeros = static_cast<unsigned>(c.n(0, 3));
  double      x     = c.real(-20, 20), sum = 0;
  bool        even  = c.b();
  double      unit  = std::ldexp(1., static_cast<int>(c.b() ? 0 : c.i(-120, 120)));
  for (std::size_t k = 0; k < n; ++k, x += even ? 1. : static_cast<double>(c.i(1, 20)) / 8.) {
    double p = c.n(0, 3) < zeros ? 0. : unit * static_cast<double>(c.i(1, c.b() ? 4 : 200));
    sum += p;
    s.x.push_back(x);
    s.pdf.push_back(p);
    s.cdf.push_back(sum);
  }
  if (sum == 0) {
    std::size_t k = c.n(0, n - 1);
    s.pdf[k]      = unit;
    for (; k < n; ++k)
      s.cdf[k] = unit;
  }
  return s;
}

Cumulative build(Case& c, Samples& s) {
  switch (c.n(0, 4)) {
  case 0: return Cumulative(s.x, s.cdf);
  case 1: return Cumulative::fromPdf(s.x, s.pdf);
  case 2: return Cumulative(Euclid::XYDataset::XYDataset::factory(s.x, s.cdf));
  case 3: return Cumulative::fromPdf(Euclid::XYDataset::XYDataset::factory(s.x, s.pdf));
  default: {
    std::vector<double> one{1., 2.}, two{3., 4.};
    Cumulative          a(s.x, s.cdf), b(one, two), d(one, two);
    b = a;
    d = std::move(b);
    return Cumulative(d);
  }
  }
}

void describe(Case& c, const Samples& s) {
  c.describe([&](std::ostream& o) { o << "x=" << pbt::str(s.x) << " pdf=" << pbt::str(s.pdf); });
}

// A ratio that hits sums exactly now and then; ratio * total is exact in double when dyadic
double ratio(Case& c, bool allow_zero) {
  double r = static_cast<double>(c.i(allow_zero ? 0 : 1, 64)) / 64.;
  return c.b(1, 6) ? 1. : r;
}

std::pair<std::size_t, std::size_t> tray(const Samples& s, double value) {
  std::size_t a = 0;
  while (s.cdf[a] < value)
    ++a;
  std::size_t b = a;
  while (b + 1 < s.cdf.size() && s.cdf[b + 1] == s.cdf[a])
    ++b;
  return {a, b};
}

}  // namespace

PBT_TEST(find_value, pbt::cases(60000, 3000000)) {
  auto s = gen(c, 30);
  describe(c, s);
  auto cumulative = build(c, s);
  c.nontrivial(s.x.size() > 2);
  std::vector<double> ratios, found;
  for (std::size_t k = 0, n = c.n(1, 6); k < n; ++k) {
    double r = ratio(c, true);
    auto   t = tray(s, r * s.total());
    double a = s.x[t.first], b = s.x[t.second];
    c.label("tray", t.second > t.first);
    double begin = cumulative.findValue(r, Cumulative::TrayPosition::begin), end = cumulative.findValue(r, Cumulative::TrayPosition::end);
    double middle = c.b() ? cumulative.findValue(r) : cumulative.findValue(r, Cumulative::TrayPosition::middle);
    CHECK(begin == a, "the cumulative reaches " << r << " at " << a << ", found " << begin);
    CHECK(end == b, "the tray of " << r << " ends at " << b << ", found " << end);
    CHECK(std::abs(middle - (static_cast<LD>(a) + b) / 2) <= 4 * EPS * (std::abs(a) + std::abs(b)), "the middle of the tray is not between " << a << " and " << b << ": " << middle);
    ratios.push_back(r);
    found.push_back(middle);
  }
  pbt::sameAgain(c, [&](double r) { return cumulative.findValue(r); }, ratios, found);
  for (double r : {-0.001, 1.001, -5., 64.})
    CHECK_THROWS(cumulative.findValue(r), Elements::Exception, "ratio " << r);
}

// Normalizing scales the values, so it moves nothing
PBT_TEST(normalized, pbt::cases(30000, 1000000)) {
  auto s = gen(c, 30);
  describe(c, s);
  auto cumulative = build(c, s);
  c.nontrivial(s.x.size() > 2);
  cumulative.normalize();
  double r = c.unit();
  // a sum within rounding of the ratio may be on either side
  for (double v : s.cdf)
    if (std::abs(v / s.total() - r) < 1e-12)
      throw pbt::Discard();
  auto   t     = tray(s, r * s.total());
  double begin = cumulative.findValue(r, Cumulative::TrayPosition::begin), end = cumulative.findValue(r, Cumulative::TrayPosition::end);
  CHECK(begin == s.x[t.first] && end == s.x[t.second], "the cumulative reaches " << r << " from " << s.x[t.first] << " to " << s.x[t.second] << ", found " << begin << " to " << end);
  CHECK(cumulative.findValue(1., Cumulative::TrayPosition::begin) == s.x[tray(s, s.total()).first], "the total is reached elsewhere");
}

PBT_TEST(min_interval, pbt::cases(60000, 3000000)) {
  auto s = gen(c, 25);
  describe(c, s);
  auto        cumulative = build(c, s);
  double      rate = ratio(c, false), need = rate * s.total();
  std::size_t n = s.x.size();
  auto        got = cumulative.findMinInterval(rate);
  c.nontrivial(n > 2);
  // the sum of what follows the begin of the interval up to its end; the first sample counts with the first interval
  auto holds = [&](std::size_t i, std::size_t j) { return s.cdf[j] - (i == 0 ? 0. : s.cdf[i]); };
  double best = s.x.back() - s.x.front();
  for (std::size_t i = 0; i < n; ++i)
    for (std::size_t j = i + 1; j < n; ++j)
      if (holds(i, j) >= need)
        best = std::min(best, s.x[j] - s.x[i]);
  auto i = std::find(s.x.begin(), s.x.end(), got.first) - s.x.begin(), j = std::find(s.x.begin(), s.x.end(), got.second) - s.x.begin();
  CHECK(i < static_cast<long>(n) && j < static_cast<long>(n) && i <= j, "[" << got.first << ", " << got.second << "] is no interval of samples");
  CHECK(holds(i, j) >= need, "[" << got.first << ", " << got.second << "] holds " << holds(i, j) << ", not " << need);
  CHECK(got.second - got.first <= best, "[" << got.first << ", " << got.second << "] is not the smallest: there is one of " << best);
  for (double r : {0., -0.5, 1.001})
    CHECK_THROWS(cumulative.findMinInterval(r), Elements::Exception, "rate " << r);
}

PBT_TEST(centered_interval, pbt::cases(60000, 3000000)) {
  auto s = gen(c, 25);
  describe(c, s);
  auto   cumulative = build(c, s);
  double rate       = ratio(c, false);
  auto   got        = cumulative.findCenteredInterval(rate);
  auto   lo = tray(s, (0.5 - rate / 2) * s.total()), hi = tray(s, (0.5 + rate / 2) * s.total());
  double first = s.x[lo.second], second = s.x[hi.first];
  c.nontrivial(s.x.size() > 2);
  c.label("within one sample", lo == hi);
  first = std::min(first, second);  // one sample may hold it all
  CHECK(got.first == first && got.second == second, "the central " << rate << " is [" << got.first << ", " << got.second << "], expected [" << first << ", " << second << "]");
  for (double r : {0., -0.5, 1.001})
    CHECK_THROWS(cumulative.findCenteredInterval(r), Elements::Exception, "rate " << r);
}

PBT_TEST(sizes, pbt::cases(2000, 20000)) {
  auto s = gen(c, 10);
  auto y = s.cdf;
  if (c.b())
    y.push_back(y.back());
  else
    y.pop_back();
  c.nontrivial();
  CHECK_THROWS(Cumulative(s.x, y), Elements::Exception, "different sizes");
  CHECK_THROWS(Cumulative::fromPdf(s.x, y), Elements::Exception, "different sizes");
}

// The value the inverse gives for p is one up to which the linearly interpolated density holds p of the total
PBT_TEST(inverse_continuous, pbt::cases(60000, 3000000)) {
  std::size_t         n = c.size(2, 20, 2000, 300);
  std::vector<double> x{c.real(-20, 20) * c.pick({1., 100., 0.})}, pdf;
  double              width = c.pick({1., 0.01, 100.}), height = c.pick({1., 1e-6, 1e6});
  unsigned            style = static_cast<unsigned>(c.n(0, 3));
  for (std::size_t k = 1; k < n; ++k)
    x.push_back(x.back() + (c.b(1, 12) ? 0. : width * (style == 0 ? 1. : c.real(0.1, 2))));
  for (std::size_t k = 0; k < n; ++k)
    switch (style) {
    case 0: pdf.push_back(height * static_cast<double>(c.i(0, 4))); break;
    case 1: pdf.push_back(height * c.real(0, 1)); break;
    case 2: pdf.push_back(height * (1. + c.pick({0., 1e-15, 1e-12, 1e-9, 1e-6}) * c.unit())); break;  // almost flat
    default: pdf.push_back(c.b(1, 3) ? 0. : height * std::pow(10., c.real(-8, 0))); break;
    }
  if (c.b(1, 5))
    for (std::size_t k = c.n(1, n - 1); k < n; ++k)
      pdf[k] = 0;
  std::size_t end = n;  // nothing from here on
  while (end > 0 && pdf[end - 1] == 0)
    --end;
  c.describe([&](std::ostream& o) { o << "x=" << pbt::str(x) << " pdf=" << pbt::str(pdf); });
  std::vector<LD> cdf{0};
  LD              top = 0;
  for (std::size_t k = 1; k < n; ++k)
    cdf.push_back(cdf.back() + (static_cast<LD>(x[k]) - x[k - 1]) * (static_cast<LD>(pdf[k]) + pdf[k - 1]) / 2);
  for (auto p : pdf)
    top = std::max<LD>(top, p);
  if (cdf.back() <= 0)
    throw pbt::Discard();
  InverseCumulative<double> inverse(x, pdf);
  c.nontrivial(n > 2);
  double span  = std::max(std::abs(x.front()), std::abs(x.back()));
  // rounding of the sums, and of the position times the density
  LD     tol   = 64 * EPS * (cdf.back() + pdf[0]) + 64 * EPS * top * span;
  double last_p = 0, last_x = x.front();
  std::vector<double> ps, found;
  for (std::size_t q = 0, m = c.n(1, 10); q < m; ++q) {
    double p;
    switch (c.n(0, 3)) {
    case 0: p = last_p + (1 - last_p) * c.unit(); break;
    case 1: p = std::min(1., std::max(last_p, static_cast<double>(cdf[c.n(0, n - 1)] / cdf.back()))); break;
    case 2: p = c.b() ? 1. : last_p; break;
    default: p = std::min(1., last_p + c.pick({1e-3, 1e-9, 0.1})); break;
    }
    double got = inverse(p);
    CHECK(got >= x.front() && got <= x.back(), "p = " << p << " gives " << got << ", not between " << x.front() << " and " << x.back());
    CHECK(got <= x[std::min(end, n - 1)], "p = " << p << " gives " << got << ", but the density ends at " << x[std::min(end, n - 1)]);
    std::size_t i = std::upper_bound(x.begin(), x.end(), got) - x.begin();
    i             = std::min(std::max<std::size_t>(i, 1), n - 1);
    LD lo = cdf[i - 1], hi = cdf[i];
    LD F = lo;
    if (x[i] > x[i - 1]) {
      LD t = static_cast<LD>(got) - x[i - 1], slope = (static_cast<LD>(pdf[i]) - pdf[i - 1]) / (static_cast<LD>(x[i]) - x[i - 1]);
      F += pdf[i - 1] * t + slope * t * t / 2;
    }
    CHECK(std::abs(F - p * cdf.back()) <= tol, "p = " << p << " gives " << got << ", up to which there is " << static_cast<double>(F / cdf.back()));
    CHECK(got >= last_x - 1e-9 * (span + width * n) - static_cast<double>(2 * tol / (height * 1e-9)), "p = " << p << " gives " << got << ", less than the " << last_x << " of " << last_p);
    last_p = p;
    last_x = got;
    ps.push_back(p);
    found.push_back(got);
  }
  pbt::sameAgain(c, [&](double p) { return inverse(p); }, ps, found);
  for (double p : {-0.001, 1.001})
    CHECK_THROWS(inverse(p), Elements::Exception, "p = " << p);
}

PBT_TEST(inverse_discrete, pbt::cases(40000, 2000000)) {
  std::size_t         n = c.size(1, 15, 2000, 300);
  std::vector<int>    knots;
  std::vector<double> pdf;
  double              sum = 0;
  for (std::size_t k = 0; k < n; ++k) {
    knots.push_back(static_cast<int>(c.i(-100, 100)) * 20 + static_cast<int>(k));
    pdf.push_back(static_cast<double>(c.i(0, 8)));
    sum += pdf.back();
  }
  // a total that is a power of two makes everything exact
  double two = 1;
  while (two < sum || two == 0)
    two *= 2;
  std::size_t at = c.n(0, n - 1);
  pdf[at] += two - sum;
  if (sum == 0)
    pdf[at] = 1, two = 1;
  c.describe([&](std::ostream& o) { o << "knots=" << pbt::str(knots) << " pdf=" << pbt::str(pdf); });
  InverseCumulative<int> inverse(knots, pdf);
  c.nontrivial(n > 2);
  for (std::size_t q = 0, m = c.n(1, 8); q < m; ++q) {
    double      p = c.b() ? static_cast<double>(c.i(0, static_cast<std::int64_t>(two))) / two : c.unit();
    double      s = 0;
    std::size_t e = 0;
    for (; e < n; ++e) {
      s += pdf[e];
      if (s / two >= p)
        break;
    }
    CHECK(inverse(p) == knots[e], "p = " << p << " gives " << inverse(p) << ", expected " << knots[e]);
  }
  for (double p : {-0.001, 1.001})
    CHECK_THROWS(inverse(p), Elements::Exception, "p = " << p);
}

PBT_TEST(inverse_refused, pbt::cases(3000, 50000)) {
  std::size_t         n = c.n(2, 8);
  std::vector<double> x, pdf;
  for (std::size_t k = 0; k < n; ++k) {
    x.push_back(static_cast<double>(k) + c.real(0, 0.9));
    pdf.push_back(c.real(0.1, 2));
  }
  c.nontrivial();
  if (c.b()) {
    std::size_t k = c.n(1, n - 1);
    std::swap(x[c.n(0, k - 1)], x[k]);
  } else if (c.b()) {
    x.push_back(100.);
  } else {
    x.pop_back();
  }
  c.describe([&](std::ostream& o) { o << "x=" << pbt::str(x) << " pdf=" << pbt::str(pdf); });
  CHECK_THROWS(InverseCumulative<double>(x, pdf), Elements::Exception, "knots that do not fit");
}
