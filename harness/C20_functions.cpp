// C20: products, integrals and derivatives of functions are what they are named after
#include "ElementsKernel/Exception.h"
#include "MathUtils/function/FunctionAdapter.h"
#include "MathUtils/function/Piecewise.h"
#include "MathUtils/function/Polynomial.h"
#include "MathUtils/function/function_tools.h"
#include "common/pbt.h"

using namespace Euclid::MathUtils;
using pbt::Case;
using LD = long double;

namespace {

const LD EPS = std::numeric_limits<double>::epsilon();

// A function of the model: on every range a polynomial. Outside of the ranges it is zero.
struct Piece {
  LD              lo, hi;
  std::vector<LD> coef, mag;  // mag: bound of the sum of the absolute values that went into a coefficient
};
struct Ref {
  std::vector<Piece> pieces;
  bool               integrable = true;
  std::string        text;
};

LD evalPoly(const std::vector<LD>& coef, LD x) {
  LD r = 0, p = 1;
  for (auto k : coef) {
    r += k * p;
    p *= x;
  }
  return r;
}

Ref product(const Ref& a, const Ref& b) {
  Ref r;
  r.integrable = a.integrable && b.integrable;
  for (auto& p : a.pieces)
    for (auto& q : b.pieces) {
      Piece n{std::max(p.lo, q.lo), std::min(p.hi, q.hi), {}, {}};
      if (n.lo > n.hi)
        continue;
      n.coef.assign(p.coef.size() + q.coef.size(), 0);
      n.mag = n.coef;
      for (std::size_t i = 0; i < p.coef.size(); ++i)
        for (std::size_t j = 0; j < q.coef.size(); ++j) {
          n.coef[i + j] += p.coef[i] * q.coef[j];
          n.mag[i + j] += p.mag[i] * q.mag[j];
        }
      r.pieces.push_back(n);
      // where two ranges touch in a point, the product may be defined there or not
      if (n.lo == n.hi)
        r.pieces.push_back({n.lo, n.hi, {}, {}});
    }
  return r;
}

// The values the function may have at x: several where pieces meet
std::vector<std::pair<LD, LD>> values(const Ref& r, LD x) {
  std::vector<std::pair<LD, LD>> v;
  for (auto& p : r.pieces)
    if (p.lo <= x && x <= p.hi)
      v.push_back({evalPoly(p.coef, x), 64 * EPS * evalPoly(p.mag, std::abs(x))});
  if (v.empty())
    v.push_back({0, 0});
  return v;
}

std::pair<LD, LD> integral(const Ref& r, LD a, LD b) {
  LD sum = 0, tol = 0, lo = std::min(a, b), hi = std::max(a, b);
  for (auto& p : r.pieces) {
    LD l = std::max(lo, p.lo), h = std::min(hi, p.hi);
    if (h <= l)
      continue;
    LD pl = l, ph = h;
    for (std::size_t k = 0; k < p.coef.size(); ++k) {
      sum += p.coef[k] / (k + 1) * (ph - pl);
      tol += 64 * EPS * p.mag[k] / (k + 1) * (std::abs(ph) + std::abs(pl));
      ph *= h;
      pl *= l;
    }
  }
  return {a > b ? -sum : sum, tol};
}

struct Both {
  Ref                       ref;
  std::unique_ptr<Function> f;
};

const LD FAR = 1e6;  // the model of functions without ends; no query goes there

Both polynomial(Case& c) {
  Both        b;
  std::size_t n = c.n(0, 5);
  std::vector<double> coef;
  bool        ints = c.b();
  double      unit = std::ldexp(1., static_cast<int>(c.b(3, 4) ? 0 : c.i(-60, 60)));
  for (std::size_t k = 0; k < n; ++k)
    coef.push_back(unit * (ints ? static_cast<double>(c.i(-4, 4)) : c.real(-3, 3)));
  b.f = std::unique_ptr<Function>(new Polynomial(coef));
  Piece p{-FAR, FAR, {coef.begin(), coef.end()}, {}};
  for (auto k : coef)
    p.mag.push_back(std::abs(k));
  b.ref.pieces.push_back(p);
  b.ref.text = "poly" + pbt::str(coef);
  return b;
}

Both adapter(Case& c) {
  Both b          = polynomial(c);
  auto poly       = std::shared_ptr<Function>(std::move(b.f));
  b.f             = std::unique_ptr<Function>(new FunctionAdapter([poly](double x) { return (*poly)(x); }));
  b.ref.integrable = false;
  b.ref.text      = "function of " + b.ref.text;
  return b;
}

Both any(Case& c, int depth);

Both piecewise(Case& c, int depth) {
  Both                                   b;
  std::size_t                            n = c.n(1, 5);
  std::vector<double>                    knots{c.real(-6, 4)};
  std::vector<std::shared_ptr<Function>> shared;
  std::vector<std::unique_ptr<Function>> unique;
  bool                                   by_shared = c.b();
  // those of several functions can be the same or very close
  bool close = c.b(1, 4);
  auto near  = [&] { return c.b(1, 4) ? 0. : static_cast<double>(c.i(-9, 9)) * std::pow(10., static_cast<double>(c.i(-14, -6))); };
  if (close)
    knots[0] = static_cast<double>(c.i(-2, 2)) + near();
  b.ref.text                                       = "piecewise(";
  for (std::size_t k = 0; k < n; ++k) {
    if (close)
      knots.push_back(std::max(knots.back(), std::round(knots.back()) + static_cast<double>(c.i(0, 1)) + near()));
    else
      knots.push_back(knots.back() + (c.b(1, 8) ? 0. : c.b() ? static_cast<double>(c.i(1, 3)) : c.real(0.05, 3)));
    Both part = depth > 0 && c.b(1, 6) ? any(c, depth - 1) : c.b(1, 8) ? adapter(c) : polynomial(c);
    Ref  cut;
    cut.pieces.push_back({knots[k], knots[k + 1], {1}, {1}});
    cut = product(part.ref, cut);
    // where the part is zero because it has ended, zero is the value at the knot
    for (LD end : {static_cast<LD>(knots[k]), static_cast<LD>(knots[k + 1])})
      if (std::none_of(part.ref.pieces.begin(), part.ref.pieces.end(), [end](const Piece& q) { return q.lo <= end && end <= q.hi; }))
        cut.pieces.push_back({end, end, {}, {}});
    b.ref.pieces.insert(b.ref.pieces.end(), cut.pieces.begin(), cut.pieces.end());
    b.ref.integrable = b.ref.integrable && part.ref.integrable;
    b.ref.text += pbt::str(knots[k]) + " " + part.ref.text + " ";
    if (by_shared)
      shared.push_back(std::move(part.f));
    else
      unique.push_back(std::move(part.f));
  }
  b.ref.text += pbt::str(knots.back()) + ")";
  b.f.reset(by_shared ? new Piecewise(knots, shared) : new Piecewise(knots, std::move(unique)));
  return b;
}

Both any(Case& c, int depth) {
  switch (c.n(0, 7)) {
  case 0: return polynomial(c);
  case 1: return adapter(c);
  case 2:
  case 3:
  case 4: return piecewise(c, depth);
  default: {
    if (depth == 0)
      return piecewise(c, 0);
    Both a = any(c, depth - 1), b = any(c, depth - 1), r;
    r.f        = multiply(*a.f, *b.f);
    r.ref      = product(a.ref, b.ref);
    r.ref.text = "(" + a.ref.text + " * " + b.ref.text + ")";
    CHECK(r.f, "no product");
    return r;
  }
  }
}

double point(Case& c, const Ref& r) {
  if (!r.pieces.empty() && c.b(1, 2)) {
    auto& p = r.pieces[c.n(0, r.pieces.size() - 1)];
    if (c.b(1, 3) && std::abs(p.lo) < FAR && std::abs(p.hi) < FAR)
      return static_cast<double>((p.lo + p.hi) / 2);
    LD    k = c.b() ? p.lo : p.hi;
    if (std::abs(k) < FAR)
      return static_cast<double>(k) + (c.b() ? 0. : c.b() ? 1e-3 : -1e-3);
  }
  return c.real(-12, 20);
}

}  // namespace

PBT_TEST(value, pbt::cases(50000, 3000000)) {
  auto b = any(c, 3);
  if (c.b(1, 4))
    b.f = b.f->clone();
  c.describe([&](std::ostream& o) { o << b.ref.text; });
  c.nontrivial(b.ref.pieces.size() > 1);
  c.label("product", b.ref.text.find('*') != std::string::npos);
  std::size_t         n = c.n(1, 8);
  std::vector<double> xs, all;
  for (std::size_t k = 0; k < n; ++k) {
    double      x = point(c, b.ref), got = (*b.f)(x);
    xs.push_back(x);
    all.push_back(got);
    bool        ok = false;
    std::string expected;
    for (auto& v : values(b.ref, x)) {
      ok = ok || std::abs(got - v.first) <= v.second;
      expected += pbt::str(static_cast<double>(v.first)) + " ";
    }
    CHECK(ok, "f(" << x << ") = " << got << ", expected " << expected);
  }
  pbt::sameAgain(c, [&](double x) { return (*b.f)(x); }, xs, all);
  auto clone = b.f->clone();
  pbt::sameAgain(c, [&](double x) { return (*clone)(x); }, xs, all);
}

PBT_TEST(integral, pbt::cases(50000, 3000000)) {
  auto b = any(c, 2);
  c.describe([&](std::ostream& o) { o << b.ref.text; });
  double lo = point(c, b.ref), hi = point(c, b.ref);
  if (!b.ref.integrable || !dynamic_cast<Integrable*>(b.f.get()))
    throw pbt::Discard();
  auto   e   = integral(b.ref, lo, hi);
  double got = integrate(*b.f, lo, hi);
  c.nontrivial(b.ref.pieces.size() > 1 && e.first != 0);
  CHECK(std::abs(got - e.first) <= e.second, "integral over [" << lo << ", " << hi << "] is " << got << ", expected " << static_cast<double>(e.first));
}

// Products of polynomials and of piecewise polynomials can be integrated
PBT_TEST(product_integral, pbt::cases(50000, 3000000)) {
  Both f[3];
  int  n = static_cast<int>(c.n(2, 3));
  for (int k = 0; k < n; ++k)
    do
      f[k] = c.b(1, 4) ? polynomial(c) : piecewise(c, 0);
    while (!f[k].ref.integrable);
  Both r;
  r.f   = f[0].f->clone();
  r.ref = f[0].ref;
  for (int k = 1; k < n; ++k) {
    r.f   = c.b() ? multiply(*r.f, *f[k].f) : multiply(*f[k].f, *r.f);
    r.ref = product(r.ref, f[k].ref);
  }
  c.describe([&](std::ostream& o) {
    for (int k = 0; k < n; ++k)
      o << f[k].ref.text << "  ";
  });
  double lo = point(c, r.ref), hi = point(c, r.ref);
  auto   e   = integral(r.ref, lo, hi);
  double got = integrate(*r.f, lo, hi);
  c.nontrivial(r.ref.pieces.size() > 1 && e.first != 0);
  CHECK(std::abs(got - e.first) <= e.second, "integral over [" << lo << ", " << hi << "] is " << got << ", expected " << static_cast<double>(e.first));
}

// Derivative and antiderivative of a polynomial, and of those
PBT_TEST(polynomials, pbt::cases(40000, 1000000)) {
  auto  b    = polynomial(c);
  auto  ref  = b.ref.pieces[0];
  auto& coef = ref.coef;
  auto& mag  = ref.mag;
  c.describe([&](std::ostream& o) { o << b.ref.text; });
  std::shared_ptr<Function> f(std::move(b.f));
  std::size_t               n = c.n(1, 5);
  for (std::size_t k = 0; k < n; ++k) {
    auto d = std::dynamic_pointer_cast<Differentiable>(f);
    CHECK(d, "not differentiable");
    bool derive = c.b();
    c.nontrivial(coef.size() > 2);
    for (auto v : {&coef, &mag}) {
      if (derive) {
        for (std::size_t i = 1; i < v->size(); ++i)
          (*v)[i - 1] = (*v)[i] * i;
        if (!v->empty())
          v->pop_back();
      } else {
        v->push_back(0);
        for (std::size_t i = v->size(); i-- > 1;)
          (*v)[i] = (*v)[i - 1] / i;
        (*v)[0] = 0;
      }
    }
    f = derive ? d->derivative() : d->indefiniteIntegral();
    double x = c.real(-5, 5), x2 = c.real(-5, 5);
    // an antiderivative is one up to a constant
    LD e = evalPoly(coef, x), got = (*f)(x), tol = 64 * EPS * evalPoly(mag, std::abs(x));
    if (!derive) {
      e -= evalPoly(coef, x2);
      got -= (*f)(x2);
      tol += 64 * EPS * evalPoly(mag, std::abs(x2));
      coef[0] = (*f)(0);
      mag[0]  = std::abs(coef[0]);
    }
    CHECK(std::abs(got - e) <= tol, (derive ? "derivative" : "antiderivative") << " at " << x << " is " << static_cast<double>(got) << ", expected " << static_cast<double>(e));
  }
}

PBT_TEST(refused, pbt::cases(10000, 200000)) {
  std::size_t         n = c.n(0, 5), m = c.n(0, 6);
  std::vector<double> knots;
  for (std::size_t k = 0; k < n; ++k)
    knots.push_back(static_cast<double>(k) + c.real(0, 1));
  bool unsorted = n > 1 && c.b();
  if (unsorted)
    std::swap(knots[c.n(0, n - 2)], knots[n - 1]);
  if (std::is_sorted(knots.begin(), knots.end()) && n == m + 1)
    throw pbt::Discard();
  c.describe([&](std::ostream& o) { o << "knots " << pbt::str(knots) << " functions " << m; });
  c.nontrivial();
  std::vector<std::shared_ptr<Function>> shared;
  std::vector<std::unique_ptr<Function>> unique;
  for (std::size_t k = 0; k < m; ++k) {
    shared.emplace_back(new Polynomial({1.}));
    unique.emplace_back(new Polynomial({1.}));
  }
  CHECK_THROWS(Piecewise(knots, shared), Elements::Exception, "piecewise");
  CHECK_THROWS(Piecewise(knots, std::move(unique)), Elements::Exception, "piecewise");
}

namespace {
struct Scheme : NumericalIntegrationScheme {
  int*   calls;
  double lo, hi;
  Scheme(int* n, double l, double h) : calls(n), lo(l), hi(h) {}
  double operator()(const Function& f, double min, double max) override {
    ++*calls;
    CHECK(min == lo && max == hi, "the scheme is asked for another range");
    return f(min) + 1000 * f(max);
  }
};
}  // namespace

// A numerical scheme is used for what has no integral of its own, and only for that
PBT_TEST(scheme, pbt::cases(10000, 200000)) {
  auto   b = any(c, 1);
  double lo = c.real(-5, 5), hi = c.real(-5, 5);
  bool   own = dynamic_cast<Integrable*>(b.f.get()) != nullptr;
  c.describe([&](std::ostream& o) { o << b.ref.text; });
  if (own && !b.ref.integrable)
    throw pbt::Discard();  // parts of it are not
  int calls = 0;
  c.nontrivial(!own);
  double got = integrate(*b.f, lo, hi, std::unique_ptr<NumericalIntegrationScheme>(new Scheme(&calls, lo, hi)));
  if (own) {
    CHECK(calls == 0, "a scheme for a function that can be integrated");
    CHECK(got == integrate(*b.f, lo, hi), "the integral depends on the scheme");
  } else {
    CHECK(calls == 1 && got == (*b.f)(lo) + 1000 * (*b.f)(hi), "the result of the scheme is lost");
    CHECK_THROWS(integrate(*b.f, lo, hi), Elements::Exception, "no way to integrate");
  }
}
