// C18: one-dimensional interpolation passes through its samples and is the linear or natural cubic one between them
#include "ElementsKernel/Exception.h"
#include "MathUtils/function/function_tools.h"
#include "MathUtils/interpolation/interpolation.h"
#include "XYDataset/XYDataset.h"
#include "common/pbt.h"

using namespace Euclid::MathUtils;
using pbt::Case;
using LD = long double;

namespace {

const double EPS = std::numeric_limits<double>::epsilon();

struct Samples {
  std::vector<double> x, y;    // as passed
  std::vector<double> ux, uy;  // without repeated pairs
  bool                steps = false, spread = false;  // spread: of very different distances
};

// Increasing x; some pairs repeated, some x repeated with another y
Samples gen(Case& c, bool with_steps, std::size_t min_n, std::size_t max_n) {
  Samples     s;
  std::size_t n      = c.size(min_n, max_n, 50 * max_n, 300);
  int         style  = static_cast<int>(c.n(0, 4));
  double      scale  = c.pick({1., 100., 1e-3, 1e5, 1e-12, 1e12});
  double      unit   = std::ldexp(1., static_cast<int>(c.b() ? 0 : c.i(-100, 100)));
  double      x      = c.real(-20, 20) * scale;
  bool        dups   = c.b(1, 3);
  std::set<double> spread;
  if (style == 4) {
    s.spread = true;
    int high = static_cast<int>(c.i(-14, 8));
    while (spread.size() < n)
      spread.insert((c.b() ? scale : -scale) * c.real(1, 9.99) * std::pow(10., static_cast<double>(c.i(-15, high))));
    x = *spread.begin();
  }
  auto next          = spread.begin();
  bool        step   = with_steps && c.b(1, 3);
  for (std::size_t k = 0; k < n; ++k) {
    double y = unit * (style == 0 ? static_cast<double>(c.i(-5, 5)) : c.real(-100, 100));
    if (k > 0 && step && c.b(1, 4)) {
      if (y == s.uy.back())
        y += unit;
      s.steps = true;
    } else if (k > 0 && style == 4) {
      x = *++next;
    } else if (k > 0) {
      x += scale * (style == 0 ? 1. : style == 1 ? static_cast<double>(c.i(1, 4)) / 2. : 0.05 + c.real(0, 3));
    }
    s.ux.push_back(x);
    s.uy.push_back(y);
    do {
      s.x.push_back(x);
      s.y.push_back(y);
    } while (dups && c.b(1, 5));
  }
  return s;
}

double query(Case& c, const Samples& s) {
  double lo = s.ux.front(), hi = s.ux.back(), w = hi > lo ? hi - lo : 1e-3;
  switch (c.n(0, 6)) {
  case 0: return c.pick(s.ux);
  case 1: return lo - w * c.real(0, 2);
  case 2: return hi + w * c.real(0, 2);
  case 3: return std::nextafter(c.pick(s.ux), c.b() ? 1e300 : -1e300);
  default: return lo + (hi - lo) * c.unit();
  }
}

// Whether got is the linear interpolation at x; between the values given there at a jump
bool isLinear(const Samples& s, double x, bool extrapolate, double got, std::string& expected) {
  std::size_t n = s.ux.size();
  std::ostringstream o;
  o.precision(17);
  bool at_knot = std::find(s.ux.begin(), s.ux.end(), x) != s.ux.end();
  // at a jump, and beyond one where no slope is defined: something from the one value to the other
  bool low_jump = n > 1 && s.ux[0] == s.ux[1] && x < s.ux[0] && extrapolate;
  bool high_jump = n > 1 && s.ux[n - 1] == s.ux[n - 2] && x > s.ux[n - 1] && extrapolate;
  if (at_knot || low_jump || high_jump) {
    double at = low_jump ? s.ux.front() : high_jump ? s.ux.back() : x;
    double lo = 1e300, hi = -1e300, tol = 0;
    for (std::size_t k = 0; k < n; ++k)
      if (s.ux[k] == at) {
        // rounding of the straight lines on both sides
        for (std::size_t j : {k, k + 1})
          if (j > 0 && j < n && s.ux[j] > s.ux[j - 1])
            tol = std::max(tol, 32 * EPS * (std::abs(s.uy[j]) + std::abs(s.uy[j - 1]) + std::abs((s.uy[j] - s.uy[j - 1]) / (s.ux[j] - s.ux[j - 1])) * 2 * std::max(std::abs(s.ux[j]), std::abs(s.ux[j - 1]))));
        lo = std::min(lo, s.uy[k]);
        hi = std::max(hi, s.uy[k]);
      }
    o << lo << " to " << hi;
    expected = o.str();
    return got >= lo - tol && got <= hi + tol;
  }
  if (!extrapolate && (x < s.ux.front() || x > s.ux.back())) {
    expected = "0";
    return got == 0;
  }
  if (n == 1) {
    expected = pbt::str(s.uy[0]);
    return got == s.uy[0];
  }
  std::size_t i = std::upper_bound(s.ux.begin(), s.ux.end(), x) - s.ux.begin();
  i             = std::min(std::max<std::size_t>(i, 1), n - 1);
  LD slope = (static_cast<LD>(s.uy[i]) - s.uy[i - 1]) / (static_cast<LD>(s.ux[i]) - s.ux[i - 1]);
  LD e     = s.uy[i - 1] + slope * (static_cast<LD>(x) - s.ux[i - 1]);
  LD tol   = 32 * EPS * (std::abs(s.uy[i]) + std::abs(s.uy[i - 1]) + std::abs(slope) * (std::abs(x) + std::max(std::abs(s.ux[i]), std::abs(s.ux[i - 1]))));
  expected = pbt::str(static_cast<double>(e));
  return std::abs(got - e) <= tol;
}

// Natural cubic spline through the samples, in long double, as y + b t + c t^2 + d t^3 per interval
struct Spline {
  std::vector<LD> x, y, b, c, d;
  bool            spread;
  explicit Spline(const Samples& s) : spread(s.spread) {
    std::size_t n = s.ux.size();
    x.assign(s.ux.begin(), s.ux.end());
    y.assign(s.uy.begin(), s.uy.end());
    std::vector<LD> m(n, 0), diag(n, 1), up(n, 0), rhs(n, 0);  // second derivatives
    for (std::size_t k = 1; k + 1 < n; ++k) {
      LD h0 = x[k] - x[k - 1], h1 = x[k + 1] - x[k], low = h0;
      diag[k] = 2 * (h0 + h1);
      up[k]   = h1;
      rhs[k]  = 6 * ((y[k + 1] - y[k]) / h1 - (y[k] - y[k - 1]) / h0);
      if (k > 1) {
        LD f = low / diag[k - 1];
        diag[k] -= f * up[k - 1];
        rhs[k] -= f * rhs[k - 1];
      }
    }
    for (std::size_t k = n - 1; k-- > 1;)
      m[k] = (rhs[k] - up[k] * m[k + 1]) / diag[k];
    for (std::size_t k = 0; k + 1 < n; ++k) {
      LD h = x[k + 1] - x[k];
      c.push_back(m[k] / 2);
      d.push_back((m[k + 1] - m[k]) / (6 * h));
      b.push_back((y[k + 1] - y[k]) / h - h * (2 * m[k] + m[k + 1]) / 6);
    }
  }
  std::size_t piece(double at) const {
    std::size_t i = std::upper_bound(x.begin(), x.end(), static_cast<LD>(at)) - x.begin();
    return std::min(std::max<std::size_t>(i, 1), x.size() - 1) - 1;
  }
  LD value(double at) const {
    std::size_t i = piece(at);
    LD          t = at - x[i];
    return y[i] + t * (b[i] + t * (c[i] + t * d[i]));
  }
  // The polynomials are kept around x = 0
  LD tolerance(double at) const {
    std::size_t i = piece(at);
    // at a sample it is one of the two
    return std::max(tolerance(at, i), i > 0 && x[i] == at ? tolerance(at, i - 1) : 0);
  }
  LD tolerance(double at, std::size_t i) const {
    LD          r = std::abs(static_cast<LD>(at)) + std::abs(x[i]), bm = std::abs(b[i]), cm = 0, dm = std::abs(d[i]), ym = 0;
    for (std::size_t k = 0; k < c.size(); ++k) {
      cm = std::max(cm, std::abs(c[k]));
      bm = std::max(bm, std::abs(b[k]));
      dm = std::max(dm, std::abs(d[k]));
      ym = std::max(ym, std::abs(y[k]));
    }
    ym = std::max(ym, std::abs(y.back()));
    for (std::size_t k = 0; spread && k + 1 < x.size(); ++k) {  // the differences of the values are rounded
      LD h = x[k + 1] - x[k], g = k + 2 < x.size() ? std::min(h, x[k + 2] - x[k + 1]) : h;
      bm   = std::max(bm, ym / h);
      cm   = std::max(cm, ym / h / g);
      dm   = std::max(dm, ym / h / g / g);
    }
    return (spread ? 1e5L : 200) * EPS * (ym + r * (bm + r * (cm + r * dm)));
  }
};

std::unique_ptr<Function> build(Case& c, const Samples& s, InterpolationType type, bool extrapolate) {
  std::unique_ptr<Function> f;
  switch (c.n(0, 2)) {
  case 0: f = interpolate(s.x, s.y, type, extrapolate); break;
  case 1: f = interpolate(Euclid::XYDataset::XYDataset::factory(s.x, s.y), type, extrapolate); break;
  default: f = interpolate(s.x, s.y, type, extrapolate)->clone(); break;
  }
  CHECK(f, "no function");
  return f;
}

void describe(Case& c, const Samples& s, bool extrapolate) {
  c.describe([&](std::ostream& o) { o << "x=" << pbt::str(s.x) << " y=" << pbt::str(s.y) << (extrapolate ? " extrapolate" : ""); });
}

}  // namespace

PBT_TEST(linear, pbt::cases(60000, 3000000)) {
  auto s           = gen(c, true, 1, 25);
  bool extrapolate = c.b();
  describe(c, s, extrapolate);
  auto f = build(c, s, InterpolationType::LINEAR, extrapolate);
  c.nontrivial(s.ux.size() > 2);
  c.label("steps", s.steps);
  c.label("repeated samples", s.x.size() > s.ux.size());
  std::size_t         queries = c.n(1, 8);
  std::vector<double> xs, values;
  for (std::size_t k = 0; k < queries; ++k) {
    double      x = query(c, s), got = (*f)(x);
    std::string expected;
    CHECK(isLinear(s, x, extrapolate, got, expected), "f(" << x << ") = " << got << ", expected " << expected);
    xs.push_back(x);
    values.push_back(got);
  }
  pbt::sameAgain(c, [&](double x) { return (*f)(x); }, xs, values);
  auto clone = f->clone();
  pbt::sameAgain(c, [&](double x) { return (*clone)(x); }, xs, values);
}

// The integral of the linear interpolation is the area under the straight lines
PBT_TEST(linear_integral, pbt::cases(40000, 2000000)) {
  auto   s = gen(c, true, 2, 25);
  double a = query(c, s), b = query(c, s);
  describe(c, s, false);
  auto f = build(c, s, InterpolationType::LINEAR, false);
  LD   sum = 0, tol = 0;
  LD   lo = std::min(a, b), hi = std::max(a, b);
  for (std::size_t k = 0; k + 1 < s.ux.size(); ++k) {
    LD l = std::max<LD>(lo, s.ux[k]), h = std::min<LD>(hi, s.ux[k + 1]);
    if (h <= l)
      continue;
    LD slope = (static_cast<LD>(s.uy[k + 1]) - s.uy[k]) / (static_cast<LD>(s.ux[k + 1]) - s.ux[k]);
    LD yl = s.uy[k] + slope * (l - s.ux[k]), yh = s.uy[k] + slope * (h - s.ux[k]);
    sum += (h - l) * (yl + yh) / 2;
    LD r = std::max(std::abs(static_cast<LD>(s.ux[k])), std::abs(static_cast<LD>(s.ux[k + 1])));
    tol += 64 * EPS * r * (std::abs(s.uy[k]) + std::abs(s.uy[k + 1]) + std::abs(slope) * r);
  }
  if (a > b)
    sum = -sum;
  double got = integrate(*f, a, b);
  c.nontrivial(s.ux.size() > 2 && sum != 0);
  c.label("steps", s.steps);
  CHECK(std::abs(got - sum) <= tol, "integral over [" << a << ", " << b << "] is " << got << ", expected " << static_cast<double>(sum));
}

PBT_TEST(spline, pbt::cases(40000, 2000000)) {
  auto s           = gen(c, false, 2, 20);
  bool extrapolate = c.b();
  describe(c, s, extrapolate);
  auto   f = build(c, s, InterpolationType::CUBIC_SPLINE, extrapolate);
  Spline ref(s);
  c.nontrivial(s.ux.size() > 2);
  c.label("repeated samples", s.x.size() > s.ux.size());
  for (std::size_t k = 0; k < s.ux.size(); ++k) {
    double got = (*f)(s.ux[k]);
    CHECK(std::abs(got - s.uy[k]) <= ref.tolerance(s.ux[k]), "f(" << s.ux[k] << ") = " << got << ", the sample is " << s.uy[k]);
  }
  std::size_t         queries = c.n(1, 8);
  std::vector<double> xs, values;
  for (std::size_t k = 0; k < queries; ++k) {
    double x = query(c, s), got = (*f)(x);
    xs.push_back(x);
    values.push_back(got);
    if (!extrapolate && (x < s.ux.front() || x > s.ux.back()))
      CHECK(got == 0, "f(" << x << ") = " << got << " outside of the samples");
    else
      CHECK(std::abs(got - ref.value(x)) <= ref.tolerance(x), "f(" << x << ") = " << got << ", expected " << static_cast<double>(ref.value(x)) << " +- " << static_cast<double>(ref.tolerance(x)));
  }
  pbt::sameAgain(c, [&](double x) { return (*f)(x); }, xs, values);
}

PBT_TEST(single_sample, pbt::cases(3000, 60000)) {
  double x = c.real(-50, 50), y = c.real(-50, 50);
  bool   extrapolate = c.b();
  auto   type        = c.b() ? InterpolationType::LINEAR : InterpolationType::CUBIC_SPLINE;
  std::size_t times  = c.n(1, 3);
  c.describe([&](std::ostream& o) { o << times << " x (" << x << ", " << y << ")" << (extrapolate ? " extrapolate" : ""); });
  auto f = interpolate(std::vector<double>(times, x), std::vector<double>(times, y), type, extrapolate);
  c.nontrivial();
  CHECK((*f)(x) == y, "the value at the only sample is " << (*f)(x) << ", not " << y);
  for (double q : {x - 1, x + 1, x + c.real(1, 1000)})
    CHECK((*f)(q) == (extrapolate ? y : 0), "f(" << q << ") = " << (*f)(q));
}

PBT_TEST(refused, pbt::cases(20000, 400000)) {
  auto s    = gen(c, true, 2, 12);
  auto type = c.b() ? InterpolationType::LINEAR : InterpolationType::CUBIC_SPLINE;
  bool e    = c.b();
  auto x = s.x, y = s.y;
  c.nontrivial();
  switch (c.n(0, 3)) {
  case 0: {
    std::size_t k = c.n(1, x.size() - 1);
    if (x[k] == x[0])
      throw pbt::Discard();
    std::swap(x[c.n(0, k - 1)], x[k]);
    if (std::is_sorted(x.begin(), x.end()))
      throw pbt::Discard();
    break;
  }
  case 1: (c.b() ? x : y).resize(x.size() - c.n(1, x.size())); break;
  case 2: (c.b() ? x : y).push_back(x.back() + 1); break;
  default:
    // a jump has no spline
    if (!s.steps)
      throw pbt::Discard();
    type = InterpolationType::CUBIC_SPLINE;
  }
  c.describe([&](std::ostream& o) { o << "x=" << pbt::str(x) << " y=" << pbt::str(y); });
  CHECK_THROWS(interpolate(x, y, type, e), InterpolationException, "bad samples");
  if (x.size() != y.size())
    CHECK_THROWS(simple_interpolation(0.5, x, y, e), InterpolationException, "bad samples");
  else
    CHECK_THROWS(interpolate(Euclid::XYDataset::XYDataset::factory(x, y), type, e), InterpolationException, "bad samples");
}

PBT_TEST(no_samples, pbt::cases(8, 8)) {
  auto type = c.b() ? InterpolationType::LINEAR : InterpolationType::CUBIC_SPLINE;
  bool e    = c.b();
  c.nontrivial();
  CHECK_THROWS(interpolate(std::vector<double>{}, std::vector<double>{}, type, e), InterpolationException, "no samples");
  CHECK_THROWS(simple_interpolation(1., {}, {}, e), InterpolationException, "no samples");
}

// simple_interpolation does the same for one point
PBT_TEST(simple, pbt::cases(60000, 3000000)) {
  auto s           = gen(c, true, 1, 25);
  bool extrapolate = c.b();
  describe(c, s, extrapolate);
  c.nontrivial(s.ux.size() > 2);
  std::size_t queries = c.n(1, 8);
  for (std::size_t k = 0; k < queries; ++k) {
    double      x = query(c, s), got = simple_interpolation(x, s.ux, s.uy, extrapolate);
    std::string expected;
    CHECK(isLinear(s, x, extrapolate, got, expected), "f(" << x << ") = " << got << ", expected " << expected);
  }
}
