// C06: reductions of N-dimensional arrays equal their definition, element by element
#include "NdArray/NdArray.h"
#include "NdArray/Operations.h"
#include "common/pbt.h"
#include <list>

using Euclid::NdArray::NdArray;
using pbt::Case;
namespace nd = Euclid::NdArray;
typedef std::vector<std::size_t> Shape;

namespace {

template <typename T>
struct Sample {
  NdArray<T>     a;
  Shape          shape;
  std::vector<T> flat;  // row-major
};

std::size_t product(const Shape& s) {
  std::size_t p = 1;
  for (auto v : s)
    p *= v;
  return p;
}
Shape coords(std::size_t i, const Shape& s) {
  Shape r(s.size());
  for (std::size_t k = s.size(); k-- > 0;) {
    r[k] = i % s[k];
    i /= s[k];
  }
  return r;
}

// An array, or a view of one
template <typename T>
Sample<T> gen(Case& c) {
  Shape s(c.n(1, 4));
  for (auto& v : s)
    v = c.n(1, 5);
  bool large = c.b(1, 400);
  if (large) {
    s.resize(std::min<std::size_t>(s.size(), 3));
    s[c.n(0, s.size() - 1)] = c.n(100, 10000);
    if (s.size() == 1)
      s[0] *= 10;
    c.label("large");
  }
  std::vector<T> d(product(s));
  std::size_t    kind = c.n(0, 3);
  // as wide as the sum of all the elements allows
  auto wide = static_cast<std::int64_t>(std::is_integral<T>::value ? std::numeric_limits<T>::max() / static_cast<T>(d.size() + 1) : T(1000000000));
  std::uint64_t  salt = large ? c.draw(1000000) : 0;
  for (std::size_t k = 0; large && k < d.size(); ++k)
    d[k] = static_cast<T>(static_cast<int>(((k + salt) * 2654435761ull >> 12) % 7)) - 3;
  for (auto& v : d)
    if (!large)
      v = kind == 0 ? static_cast<T>(c.i(-3, 3)) : kind == 1 ? static_cast<T>(c.i(-10000, 10000)) : kind == 3 ? static_cast<T>(c.b(1, 4) ? wide - c.i(0, 5) : c.i(-wide, wide)) : static_cast<T>(c.real(-100, 100));
  Sample<T> r{NdArray<T>(s, d), s, d};
  while (r.shape.size() > 1 && c.b(1, 3)) {
    bool           last = c.b();
    std::size_t    at   = c.n(0, (last ? r.shape.back() : r.shape.front()) - 1);
    std::vector<T> f;
    for (std::size_t k = 0; k < r.flat.size(); ++k) {
      auto co = coords(k, r.shape);
      if ((last ? co.back() : co.front()) == at)
        f.push_back(r.flat[k]);
    }
    NdArray<T> v = last ? r.a.rslice(at) : r.a.slice(at);
    r.a          = v;
    r.flat       = f;
    r.shape      = last ? Shape(r.shape.begin(), r.shape.end() - 1) : Shape(r.shape.begin() + 1, r.shape.end());
    c.label("view");
  }
  c.describe([&](std::ostream& o) { o << "shape " << pbt::str(r.shape) << " values " << (r.flat.size() > 1000 ? "..." : pbt::str(r.flat)); });
  return r;
}

// the elements of the output: for each its coordinates and the elements of the input along the axis
template <typename T>
std::vector<std::vector<T>> lines(const Sample<T>& s, std::size_t axis, Shape& out_shape) {
  out_shape = s.shape;
  out_shape.erase(out_shape.begin() + static_cast<long>(axis));
  if (out_shape.empty())
    out_shape.push_back(1);
  std::vector<std::vector<T>> r(product(out_shape), std::vector<T>(s.shape[axis]));
  for (std::size_t k = 0; k < s.flat.size(); ++k) {
    auto        co  = coords(k, s.shape);
    std::size_t pos = 0;
    for (std::size_t d = 0; d < co.size(); ++d)
      if (d != axis)
        pos = pos * s.shape[d] + co[d];
    r[pos][co[axis]] = s.flat[k];
  }
  return r;
}

template <typename T>
void sums(Case& c, double rel) {
  auto s = gen<T>(c);
  c.nontrivial(s.shape.size() > 1 && s.flat.size() > 3);
  long double total = 0, mag = 0;
  for (auto v : s.flat) {
    total += v;
    mag += std::abs(static_cast<long double>(v));
  }
  CHECK(std::abs(static_cast<long double>(nd::sum(s.a)) - total) <= rel * mag, "total is " << nd::sum(s.a) << " instead of " << static_cast<double>(total));
  int dims = static_cast<int>(s.shape.size());
  int axis = static_cast<int>(c.i(0, dims - 1));
  int arg  = c.b() ? axis - dims : axis;
  Shape os;
  auto  l = lines(s, static_cast<std::size_t>(axis), os);
  auto  r = nd::sum(s.a, arg);
  CHECK(r.shape() == os, "shape of the sum along " << arg << " is " << pbt::str(r.shape()));
  for (std::size_t k = 0; k < l.size(); ++k) {
    long double e = 0, m = 0;
    for (auto v : l[k]) {
      e += v;
      m += std::abs(static_cast<long double>(v));
    }
    T got = r.at(coords(k, os));
    CHECK(std::abs(static_cast<long double>(got) - e) <= rel * m, "sum along " << arg << " at " << pbt::str(coords(k, os)) << " is " << got << " instead of " << static_cast<double>(e));
  }
  for (std::size_t k = 0; k < s.flat.size(); ++k)
    CHECK(s.a.at(coords(k, s.shape)) == s.flat[k], "the sum changed its input");
  int bad = c.b() ? dims + static_cast<int>(c.i(0, 3)) : -dims - 1 - static_cast<int>(c.i(0, 3));
  CHECK_THROWS(nd::sum(s.a, bad), std::out_of_range, "sum along axis " << bad << " of " << dims);
}

template <typename T>
void integrals(Case& c, double rel) {
  auto  s    = gen<T>(c);
  int   dims = static_cast<int>(s.shape.size());
  int   axis = static_cast<int>(c.i(0, dims - 1));
  int   arg  = c.b() ? axis - dims : axis;
  Shape os;
  auto  l = lines(s, static_cast<std::size_t>(axis), os);
  std::vector<double> x(s.shape[static_cast<std::size_t>(axis)]);
  double              at = c.real(-5, 5);
  for (auto& v : x) {
    v = at;
    at += c.real(0, 3);
  }
  c.describe([&](std::ostream& o) { o << "axis " << arg << " knots " << (x.size() > 1000 ? "..." : pbt::str(x)); });
  c.nontrivial(x.size() > 1 && dims > 1);
  auto r = nd::trapz(s.a, x.begin(), x.end(), arg);
  CHECK(r.shape() == os, "shape of the integral along " << arg << " is " << pbt::str(r.shape()));
  for (std::size_t k = 0; k < l.size(); ++k) {
    long double e = 0, m = 0;
    for (std::size_t j = 1; j < x.size(); ++j) {
      long double dx = static_cast<long double>(x[j]) - x[j - 1];
      e += (static_cast<long double>(l[k][j]) + l[k][j - 1]) * dx / 2;
      m += (std::abs(static_cast<long double>(l[k][j])) + std::abs(static_cast<long double>(l[k][j - 1]))) *
           (std::abs(static_cast<long double>(x[j])) + std::abs(static_cast<long double>(x[j - 1])));
    }
    T got = r.at(coords(k, os));
    CHECK(std::abs(static_cast<long double>(got) - e) <= rel * std::max(1., static_cast<double>(x.size()) / 50) * m, "integral along " << arg << " at " << pbt::str(coords(k, os)) << " is " << got << " instead of " << static_cast<double>(e));
  }
  auto more = x;
  more.push_back(at);
  CHECK_THROWS(nd::trapz(s.a, more.begin(), more.end(), arg), std::length_error, "one knot too many");
  if (x.size() > 1) {
    more.resize(x.size() - 1);
    CHECK_THROWS(nd::trapz(s.a, more.begin(), more.end(), arg), std::length_error, "one knot too few");
  }
  int bad = c.b() ? dims + static_cast<int>(c.i(0, 3)) : -dims - 1 - static_cast<int>(c.i(0, 3));
  CHECK_THROWS(nd::trapz(s.a, x.begin(), x.end(), bad), std::out_of_range, "integral along axis " << bad << " of " << dims);
}

template <typename T>
void extremes(Case& c) {
  auto s = gen<T>(c);
  c.nontrivial(s.shape.size() > 1 && s.flat.size() > 3);
  auto mx = nd::argmax(s.a), mn = nd::argmin(s.a);
  CHECK(mx.size() == s.shape.size() && mn.size() == s.shape.size(), "number of coordinates of an extreme");
  CHECK(s.a.at(mx) == *std::max_element(s.flat.begin(), s.flat.end()), "argmax " << pbt::str(mx) << " is the place of " << s.a.at(mx));
  CHECK(s.a.at(mn) == *std::min_element(s.flat.begin(), s.flat.end()), "argmin " << pbt::str(mn) << " is the place of " << s.a.at(mn));
}

}  // namespace

PBT_TEST(sum_double, pbt::cases(8000, 200000)) { sums<double>(c, 1e-13); }
PBT_TEST(sum_float, pbt::cases(4000, 100000)) { sums<float>(c, 3e-5); }
PBT_TEST(sum_int, pbt::cases(4000, 100000)) { sums<int>(c, 0); }
PBT_TEST(sum_int64, pbt::cases(4000, 100000)) { sums<std::int64_t>(c, 0); }
PBT_TEST(trapz_double, pbt::cases(10000, 200000)) { integrals<double>(c, 1e-13); }
PBT_TEST(trapz_float, pbt::cases(4000, 100000)) { integrals<float>(c, 3e-5); }
PBT_TEST(extremes_double, pbt::cases(6000, 100000)) { extremes<double>(c); }
PBT_TEST(extremes_int, pbt::cases(6000, 100000)) { extremes<int>(c); }
PBT_TEST(extremes_int64, pbt::cases(3000, 100000)) { extremes<std::int64_t>(c); }

PBT_TEST(unravel, pbt::cases(20000, 400000)) {
  Shape s(c.n(1, 5));
  for (auto& v : s)
    v = c.b(1, 12) ? 0 : c.b(1, 8) ? c.n(1000, 100000) : c.n(1, 7);
  unsigned __int128 p = 1;
  for (auto v : s)
    p *= v;
  if (p >> 62)
    throw pbt::Discard();
  std::size_t n = static_cast<std::size_t>(p);
  std::size_t k = n == 0 || c.b(1, 4) ? n + c.n(0, 10) * c.n(1, 1000) : c.n(0, n - 1);
  c.describe([&](std::ostream& o) { o << "index " << k << " shape " << pbt::str(s); });
  c.nontrivial(s.size() > 1 && k > 0);
  if (k >= n) {
    CHECK_THROWS(nd::unravel_index(k, s), std::out_of_range, "index " << k << " of shape " << pbt::str(s));
  } else {
    auto co = nd::unravel_index(k, s);
    CHECK(co == coords(k, s), "index " << k << " of shape " << pbt::str(s) << " is " << pbt::str(co));
  }
}
