// C21: quadrature, finite differences and the quadratic solver stay within their error bounds
#include "ElementsKernel/Exception.h"
#include "MathUtils/function/FunctionAdapter.h"
#include "MathUtils/function/Polynomial.h"
#include "MathUtils/helpers/Solvers.h"
#include "MathUtils/numericalDifferentiation/FiniteDifference.h"
#include "MathUtils/numericalIntegration/AdaptativeIntegration.h"
#include "MathUtils/numericalIntegration/SimpsonsRule.h"
#include "common/pbt.h"

using namespace Euclid::MathUtils;
using pbt::Case;
using LD = long double;

namespace {
const LD EPS = std::numeric_limits<double>::epsilon();

// A smooth function with its derivatives and antiderivative
struct Smooth {
  std::function<LD(LD)>     f, d1, d2, d3, d4, F;
  std::function<LD(LD, LD)> bound_d2, bound_d4;  // bounds of |f''| and |f''''| over a range
  std::string               text;
};

std::vector<LD> derive(std::vector<LD> v) {
  for (std::size_t i = 1; i < v.size(); ++i)
    v[i - 1] = v[i] * i;
  if (!v.empty())
    v.pop_back();
  return v;
}
LD poly(const std::vector<LD>& v, LD x) {
  LD r = 0;
  for (std::size_t i = v.size(); i-- > 0;)
    r = r * x + v[i];
  return r;
}
LD polyAbs(const std::vector<LD>& v, LD x) {
  LD r = 0;
  for (std::size_t i = v.size(); i-- > 0;)
    r = r * std::abs(x) + std::abs(v[i]);
  return r;
}

Smooth genPoly(Case& c, std::size_t degree) {
  std::vector<LD> v;
  for (std::size_t k = 0; k <= degree; ++k)
    v.push_back(c.b() ? static_cast<double>(c.i(-4, 4)) : c.real(-3, 3));
  auto   v1 = derive(v), v2 = derive(v1), v3 = derive(v2), v4 = derive(v3);
  std::vector<LD> F{0};
  for (std::size_t k = 0; k < v.size(); ++k)
    F.push_back(v[k] / (k + 1));
  Smooth s;
  s.f  = [v](LD x) { return poly(v, x); };
  s.d1 = [v1](LD x) { return poly(v1, x); };
  s.d2 = [v2](LD x) { return poly(v2, x); };
  s.d3 = [v3](LD x) { return poly(v3, x); };
  s.d4 = [v4](LD x) { return poly(v4, x); };
  s.F  = [F](LD x) { return poly(F, x); };
  s.bound_d2 = [v2](LD a, LD b) { return polyAbs(v2, std::max(std::abs(a), std::abs(b))); };
  s.bound_d4 = [v4](LD a, LD b) { return polyAbs(v4, std::max(std::abs(a), std::abs(b))); };
  std::vector<double> shown(v.begin(), v.end());
  s.text = "poly" + pbt::str(shown);
  return s;
}

Smooth gen(Case& c) {
  double a = c.real(0.1, 3), w = c.real(0.2, 2), p = c.real(-3, 3);
  Smooth s;
  switch (c.n(0, 2)) {
  case 0: return genPoly(c, c.n(0, 6));
  case 1:
    s.f  = [=](LD x) { return a * std::exp(w * x); };
    s.d1 = [=](LD x) { return w * a * std::exp(w * x); };
    s.d2 = [=](LD x) { return w * w * a * std::exp(w * x); };
    s.F  = [=](LD x) { return a / w * std::exp(w * x); };
    s.bound_d2 = [=](LD l, LD h) { return w * w * a * std::exp(w * std::max(l, h)); };
    s.bound_d4 = [=](LD l, LD h) { return w * w * w * w * a * std::exp(w * std::max(l, h)); };
    s.text     = pbt::str(a) + " exp(" + pbt::str(w) + " x)";
    return s;
  default:
    s.f  = [=](LD x) { return a * std::sin(w * x + p); };
    s.d1 = [=](LD x) { return w * a * std::cos(w * x + p); };
    s.d2 = [=](LD x) { return -w * w * a * std::sin(w * x + p); };
    s.F  = [=](LD x) { return -a / w * std::cos(w * x + p); };
    s.bound_d2 = [=](LD, LD) { return static_cast<LD>(w * w * a); };
    s.bound_d4 = [=](LD, LD) { return static_cast<LD>(w * w * w * w * a); };
    s.text     = pbt::str(a) + " sin(" + pbt::str(w) + " x + " + pbt::str(p) + ")";
    return s;
  }
}

FunctionAdapter adapt(const Smooth& s) {
  auto f = s.f;
  return FunctionAdapter([f](double x) { return static_cast<double>(f(x)); });
}

// unit * s(x / scale), for powers of two: nothing depends on the units
Smooth scaled(const Smooth& s, LD unit, LD scale) {
  Smooth t;
  auto   wrap = [=](const std::function<LD(LD)>& f, LD factor) {
    return f ? std::function<LD(LD)>([=](LD x) { return factor * f(x / scale); }) : f;
  };
  auto bound = [=](const std::function<LD(LD, LD)>& f, LD factor) { return [=](LD l, LD h) { return factor * f(l / scale, h / scale); }; };
  t.f        = wrap(s.f, unit);
  t.d1       = wrap(s.d1, unit / scale);
  t.d2       = wrap(s.d2, unit / scale / scale);
  t.F        = wrap(s.F, unit * scale);
  t.bound_d2 = bound(s.bound_d2, unit / scale / scale);
  t.bound_d4 = bound(s.bound_d4, unit / scale / scale / scale / scale);
  t.text     = pbt::str(static_cast<double>(unit)) + " * (" + s.text + ")(x / " + pbt::str(static_cast<double>(scale)) + ")";
  return t;
}

double powerOfTwo(Case& c, int most) { return std::ldexp(1., static_cast<int>(c.b(1, 2) ? 0 : c.i(-most, most))); }

LD maxAbs(const Smooth& s, LD a, LD b) {
  LD m = 0;
  for (int k = 0; k <= 64; ++k)
    m = std::max(m, std::abs(s.f(a + (b - a) * k / 64)));
  return m;
}

}  // namespace

// Exact for cubics; in general an error of fourth order (near the ends the fit of a cubic is used)
PBT_TEST(simpson, pbt::cases(30000, 1000000)) {
  bool   cubic = c.b();
  double x_unit = powerOfTwo(c, 40);
  auto   s     = scaled(cubic ? genPoly(c, c.n(0, 3)) : gen(c), powerOfTwo(c, 100), x_unit);
  double a = c.real(-4, 4) * x_unit, b = c.b(1, 10) ? a : c.real(-4, 4) * x_unit;
  int    order = static_cast<int>(c.n(3, c.b(1, 20) ? 13 : 8));
  c.describe([&](std::ostream& o) { o << s.text << " over [" << a << ", " << b << "] order " << order; });
  c.nontrivial(a != b && !cubic);
  SimpsonsRule rule;
  auto         f   = adapt(s);
  double       got = rule(f, a, b, order);
  LD           N = std::pow(2., order), h = (static_cast<LD>(b) - a) / N, e = s.F(b) - s.F(a);
  LD           rounding = (64 + N) * EPS * N * std::abs(h) * maxAbs(s, a, b) + 64 * EPS * (std::abs(s.F(a)) + std::abs(s.F(b)));
  LD           bound    = s.bound_d4(a, b) * h * h * h * h * std::abs(static_cast<LD>(b) - a);
  CHECK(std::abs(got - e) <= bound + rounding, "quadrature gives " << got << ", the integral is " << static_cast<double>(e) << " +- " << static_cast<double>(bound + rounding));
}

// Refining the previous order gives the same as computing the order directly, for any function
PBT_TEST(simpson_refined, pbt::cases(30000, 1000000)) {
  std::uint64_t salt = c.draw(0);
  bool          wild = c.b();
  double        unit = powerOfTwo(c, 100), x_unit = powerOfTwo(c, 40);
  auto          s    = scaled(gen(c), unit, x_unit);
  double        a = c.real(-4, 4) * x_unit, b = c.real(-4, 4) * x_unit;
  int           order = static_cast<int>(c.n(4, c.b(1, 20) ? 14 : 9));
  c.describe([&](std::ostream& o) { o << (wild ? "a step function" : s.text) << " over [" << a << ", " << b << "] order " << order; });
  c.nontrivial(a != b);
  // constant over cells, cells much wider than the rounding of the mesh points and off the mesh
  LD  h    = (static_cast<LD>(b) - a) / std::pow(2., order);
  auto f = wild ? FunctionAdapter([=](double x) { return h == 0 ? 1. : static_cast<double>(pbt::mix(salt ^ static_cast<std::uint64_t>(static_cast<std::int64_t>(std::llround((x - a) / h)))) % 2001) * unit / 100. - 10. * unit; }) : adapt(s);
  SimpsonsRule rule;
  double       direct = rule(f, a, b, order), refined = rule(f, a, b, rule(f, a, b, order - 1), order);
  LD           m = wild ? 10 * unit : maxAbs(s, a, b);
  CHECK(std::abs(direct - refined) <= (256 + std::pow(2., order)) * EPS * std::abs(static_cast<LD>(b) - a) * m, "order " << order << " is " << direct << " directly and " << refined << " from the previous order");
}

PBT_TEST(simpson_order, pbt::cases(2000, 20000)) {
  auto         s = gen(c);
  auto         f = adapt(s);
  int          order = static_cast<int>(c.i(-3, 3));
  SimpsonsRule rule;
  c.nontrivial();
  c.describe([&](std::ostream& o) { o << "order " << order; });
  if (order < 3)
    CHECK_THROWS(rule(f, 0., 1., order), Elements::Exception, "order too low");
  CHECK_THROWS(rule(f, 0., 1., 1., order), Elements::Exception, "order too low to refine");
}

// The adaptive integral stops, and is as close as its last refinement was
PBT_TEST(adaptive, pbt::cases(8000, 200000)) {
  double x_unit = powerOfTwo(c, 40);
  auto   s = scaled(gen(c), powerOfTwo(c, 100), x_unit);
  double a = c.real(-4, 4) * x_unit, b = a + (c.b() ? 1 : -1) * c.real(0.1, 3) * x_unit;
  LD     e = s.F(b) - s.F(a), m = maxAbs(s, a, b) * std::abs(static_cast<LD>(b) - a);
  double precision = c.pick({1e-3, 1e-6, 1e-9, 1e-2});
  int    order     = static_cast<int>(c.n(3, 6));
  c.describe([&](std::ostream& o) { o << s.text << " over [" << a << ", " << b << "] precision " << precision << " order " << order; });
  if (std::abs(e) < 0.1 * m || m == 0)
    throw pbt::Discard();  // a relative precision is asked for
  c.nontrivial();
  long evaluations = 0;
  auto g = s.f;
  FunctionAdapter f([&evaluations, g](double x) { ++evaluations; return static_cast<double>(g(x)); });
  double got;
  if (c.b()) {
    AdaptativeIntegration<SimpsonsRule> scheme(precision, order);
    got = scheme(f, a, b);
  } else {
    got = integrate(f, a, b, std::unique_ptr<NumericalIntegrationScheme>(new AdaptativeIntegration<SimpsonsRule>(precision, order)));
  }
  CHECK(std::abs(got - e) <= (precision + 1e-12) * std::abs(e), "integral is " << got << ", expected " << static_cast<double>(e));
  CHECK(evaluations < 1 << 16, evaluations << " evaluations");
}

PBT_TEST(finite_differences, pbt::cases(40000, 1000000)) {
  auto   s = scaled(gen(c), powerOfTwo(c, 100), 1);
  double x = c.real(-4, 4);
  c.describe([&](std::ostream& o) { o << s.text << " at " << x; });
  c.nontrivial(s.d2(x) != 0);
  auto f  = adapt(s);
  LD   h1 = std::sqrt(EPS) * 2, h2 = std::sqrt(h1 / 2) * 2, m = maxAbs(s, x - 1e-3, x + 1e-3);
  // rounding of the arguments moves the value by its slope
  LD slip = std::abs(s.d1(x)) * (std::abs(x) + 1) * EPS;
  LD t1   = h1 * s.bound_d2(x - h1, x + h1) + 16 * (EPS * m + slip) / h1;
  CHECK(std::abs(derivative(f, x) - s.d1(x)) <= t1, "derivative is " << derivative(f, x) << ", expected " << static_cast<double>(s.d1(x)) << " +- " << static_cast<double>(t1));
  LD t2 = h2 * h2 * s.bound_d4(x - h2, x + h2) + 32 * (EPS * m + slip) / (h2 * h2);
  CHECK(std::abs(derivative2nd(f, x) - s.d2(x)) <= t2, "second derivative is " << derivative2nd(f, x) << ", expected " << static_cast<double>(s.d2(x)) << " +- " << static_cast<double>(t2));
}

// Both solutions of a x^2 + b x + c = y, the smaller first
PBT_TEST(quadratic, pbt::cases(60000, 2000000)) {
  double a, b, k, y, r1, r2;
  bool   ints = c.b();
  a           = ints ? static_cast<double>(c.i(-5, 5)) : c.real(-5, 5);
  r1          = ints ? static_cast<double>(c.i(-20, 20)) : c.real(-20, 20);
  r2          = ints ? static_cast<double>(c.i(-20, 20)) : c.real(-20, 20);
  if (a != 0 && std::abs(a) < 1e-3)
    throw pbt::Discard();
  bool linear = a == 0;
  if (linear) {
    b = ints ? static_cast<double>(c.i(1, 9)) : c.real(0.1, 5);
    b = c.b() ? b : -b;
    k = -b * r1;
    r2 = r1;
  } else {
    b = -a * (r1 + r2);
    k = a * r1 * r2;
  }
  y = ints ? static_cast<double>(c.i(-9, 9)) : c.real(-9, 9);
  k += y;
  if (!linear && !ints && std::abs(r1 - r2) < 1e-3)
    throw pbt::Discard();
  c.nontrivial(!linear && r1 != r2);
  // the same equation in other units; these scale exactly
  double unit = powerOfTwo(c, 100), x_unit = powerOfTwo(c, 100);
  a *= unit / x_unit / x_unit;
  b *= unit / x_unit;
  k *= unit;
  y *= unit;
  r1 *= x_unit;
  r2 *= x_unit;
  c.describe([&](std::ostream& o) { o << a << " x^2 + " << b << " x + " << k << " = " << y; });
  auto s  = solveSquare(a, b, k, y);
  auto lo = std::min(r1, r2), hi = std::max(r1, r2);
  // the error of the square root grows when the solutions approach each other
  LD gap = std::max<LD>(std::abs(static_cast<LD>(r1) - r2) / x_unit, 1e-7);
  LD tol = x_unit * (linear ? 1e-12 : (r1 == r2 ? 2e-5 : 1e-11 * (1 + 100 / gap) / std::min<LD>(1, std::abs(a) / unit * x_unit * x_unit)));
  auto s_lo = std::min(s.first, s.second), s_hi = std::max(s.first, s.second);
  CHECK(std::abs(s_lo - lo) <= tol && std::abs(s_hi - hi) <= tol, "solutions " << s.first << " and " << s.second << ", expected " << lo << " and " << hi);
}

PBT_TEST(quadratic_refused, pbt::cases(500, 5000)) {
  double k = c.real(-5, 5), y = c.real(-5, 5);
  c.nontrivial();
  CHECK_THROWS(solveSquare(0., 0., k, y), Elements::Exception, "no equation to solve");
}
