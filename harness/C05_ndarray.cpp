// C05: an N-dimensional array and all the views of it behave as row-major index arithmetic over one shared storage
#include "NdArray/NdArray.h"
#include "common/pbt.h"
#include <memory>

using Euclid::NdArray::NdArray;
using pbt::Case;
typedef std::vector<std::size_t> Shape;

namespace {

std::size_t product(const Shape& s) {
  std::size_t p = 1;
  for (auto v : s)
    p *= v;
  return p;
}
Shape unravel(std::size_t i, const Shape& s) {
  Shape r(s.size());
  for (std::size_t k = s.size(); k-- > 0;) {
    r[k] = i % s[k];
    i /= s[k];
  }
  return r;
}
Shape genShape(Case& c, std::size_t max_dim = 4, std::size_t max_side = 5) {
  Shape s(c.n(1, max_dim));
  for (auto& v : s)
    v = c.n(1, max_side);
  return s;
}
// A random factorisation of n
Shape factor(Case& c, std::size_t n) {
  Shape s;
  while (s.size() < 4) {
    std::vector<std::size_t> div;
    for (std::size_t d = 1; d <= n; ++d)
      if (n % d == 0)
        div.push_back(d);
    std::size_t d = c.pick(div);
    s.push_back(d);
    n /= d;
    if (n == 1 && c.b())
      break;
  }
  s.push_back(n);
  return s;
}

// Reference: indices into a shared storage
template <typename T>
struct Model {
  std::shared_ptr<std::vector<T>> data;
  std::vector<std::size_t>        idx;  // row-major
  Shape                           shape;
  std::vector<std::string>        attrs;
  bool                            whole = true;          // covers its storage, in order
  bool                            concatenated = false;  // size() and iteration are a known finding
};

template <typename T>
struct Pair {
  NdArray<T> a;
  Model<T>   m;
};

template <typename T>
void verify(const Pair<T>& p, const char* after, std::size_t which) {
  const NdArray<T>& a = p.a;
  const Model<T>&   m = p.m;
#define CTX after << ", array " << which << ": "
  CHECK(a.shape() == m.shape, CTX "shape " << pbt::str(a.shape()) << " instead of " << pbt::str(m.shape));
  CHECK(a.attributes() == m.attrs, CTX "attributes " << pbt::str(a.attributes()) << " instead of " << pbt::str(m.attrs));
  for (std::size_t k = 0; k < m.idx.size(); ++k) {
    auto co = unravel(k, m.shape);
    T    v  = a.at(co);
    CHECK(v == (*m.data)[m.idx[k]], CTX "element " << pbt::str(co) << " is " << v << " instead of " << (*m.data)[m.idx[k]]);
    if (!m.attrs.empty()) {
      auto        base = co;
      std::size_t last = base.back();
      base.pop_back();
      CHECK(a.at(base, m.attrs[last]) == v, CTX "attribute " << m.attrs[last] << " of " << pbt::str(base) << " is not element " << last);
    }
  }
  if (!m.concatenated) {
    CHECK(a.size() == m.idx.size(), CTX "size " << a.size() << " instead of " << m.idx.size());
    std::size_t k = 0;
    for (auto i = a.begin(); i != a.end(); ++i, ++k) {
      CHECK(k < m.idx.size(), CTX "iteration does not end");
      CHECK(*i == (*m.data)[m.idx[k]], CTX "iteration gives " << *i << " at position " << k << " instead of " << (*m.data)[m.idx[k]]);
    }
    CHECK(k == m.idx.size(), CTX "iteration ends after " << k << " of " << m.idx.size() << " elements");
    CHECK(static_cast<std::size_t>(a.end() - a.begin()) == m.idx.size(), CTX "end() - begin() is not the size");
  }
#undef CTX
}

template <typename T>
T value(Case& c) {
  return static_cast<T>(c.i(-100, 100));
}

template <typename T>
Pair<T> create(Case& c, std::ostream& log) {
  Shape          s = genShape(c);
  std::size_t    n = product(s);
  std::vector<T> d(n);
  Model<T>       m;
  std::size_t    how = c.n(0, 5);
  std::vector<std::string> names;
  if (how == 5) {
    // names for the elements of the last axis
    for (std::size_t k = 0; k < s.back(); ++k)
      names.push_back(c.b() ? std::string(1, static_cast<char>('a' + k)) : "name" + std::to_string(k));
  }
  if (how != 0)
    for (auto& v : d)
      v = value<T>(c);
  m.data  = std::make_shared<std::vector<T>>(d);
  m.shape = s;
  m.attrs = names;
  for (std::size_t k = 0; k < n; ++k)
    m.idx.push_back(k);
  log << "create " << pbt::str(s) << " how=" << how << "; ";
  switch (how) {
  case 0: return {NdArray<T>(s), m};
  case 1: return {NdArray<T>(s, d), m};
  case 2: return {NdArray<T>(s, std::move(d)), m};
  case 3: return {NdArray<T>(s, d.begin(), d.end()), m};
  case 4: {
    NdArray<T> a(s);
    for (std::size_t k = 0; k < n; ++k)
      a.at(unravel(k, s)) = d[k];
    return {a, m};
  }
  default: {
    Shape outer(s.begin(), s.end() - 1);
    return {NdArray<T>(outer, names, d), m};
  }
  }
}

template <typename T>
void history(Case& c) {
  std::vector<Pair<T>> live;
  std::ostringstream   log;
  live.push_back(create<T>(c, log));
  std::size_t steps = c.len(1, 25);
  bool        view_op = false, wrote = false;
  for (std::size_t step = 0; step < steps; ++step) {
    std::size_t w  = c.n(0, live.size() - 1);
    std::size_t op = c.n(0, 11);
    const char* name = "?";
    // `p` must not be used after live has grown
    switch (op) {
    case 0: {
      name = "create";
      live.push_back(create<T>(c, log));
      break;
    }
    case 1: {
      name = "write";
      auto& p = live[w];
      if (p.m.idx.empty())
        break;
      std::size_t k  = c.n(0, p.m.idx.size() - 1);
      auto        co = unravel(k, p.m.shape);
      T           v  = value<T>(c);
      p.a.at(co)     = v;
      (*p.m.data)[p.m.idx[k]] = v;
      wrote = true;
      log << "array " << w << " at " << pbt::str(co) << " = " << v << "; ";
      break;
    }
    case 2: {
      name = "write through an iterator";
      auto& p = live[w];
      if (p.m.concatenated)
        break;
      T           v  = value<T>(c);
      std::size_t k0 = c.n(0, p.m.idx.size() - 1);
      auto        it = p.a.begin();
      it += k0;
      std::size_t k = k0;
      for (; it != p.a.end() && k < k0 + 3; ++it, ++k) {
        *it                      = static_cast<T>(v + static_cast<T>(k));
        (*p.m.data)[p.m.idx[k]] = static_cast<T>(v + static_cast<T>(k));
      }
      wrote = true;
      log << "array " << w << " iterator write from " << k0 << "; ";
      break;
    }
    case 3:
    case 4: {
      bool  last = op == 4;
      name       = last ? "rslice" : "slice";
      auto& p    = live[w];
      if (p.m.shape.size() < 2) {
        CHECK_THROWS(last ? p.a.rslice(0) : p.a.slice(0), std::out_of_range, "slice of a one-dimensional array");
        break;
      }
      std::size_t side = last ? p.m.shape.back() : p.m.shape.front();
      std::size_t at   = c.n(0, side - 1);
      CHECK_THROWS(last ? p.a.rslice(side) : p.a.slice(side), std::out_of_range, "slice out of range");
      Model<T> m;
      m.data  = p.m.data;
      m.whole = false;
      m.shape = last ? Shape(p.m.shape.begin(), p.m.shape.end() - 1) : Shape(p.m.shape.begin() + 1, p.m.shape.end());
      // the names belong to the last axis
      if (!last)
        m.attrs = p.m.attrs;
      for (std::size_t k = 0; k < p.m.idx.size(); ++k) {
        auto co = unravel(k, p.m.shape);
        if ((last ? co.back() : co.front()) == at)
          m.idx.push_back(p.m.idx[k]);
      }
      log << name << " of array " << w << " at " << at << "; ";
      if (c.b(1, 4)) {
        const NdArray<T>& ca = p.a;
        auto r = last ? ca.rslice(at) : ca.slice(at);
        live.push_back({r, m});
      } else {
        auto r = last ? p.a.rslice(at) : p.a.slice(at);
        live.push_back({r, m});
      }
      view_op = true;
      break;
    }
    case 5: {
      name    = "reshape";
      auto& p = live[w];
      if (p.m.concatenated)
        break;
      if (c.b(1, 6)) {
        Shape bad = p.m.shape;
        bad[c.n(0, bad.size() - 1)] += c.n(1, 3);
        bool thrown = false;
        try {
          p.a.reshape(bad);
        } catch (const std::range_error&) {
          thrown = true;
        } catch (const std::invalid_argument&) {
          thrown = !p.m.attrs.empty();
        }
        CHECK(thrown, "reshape " << pbt::str(p.m.shape) << " to " << pbt::str(bad) << " was accepted");
        break;
      }
      Shape s = factor(c, p.m.idx.size());
      if (!p.m.attrs.empty()) {
        CHECK_THROWS(p.a.reshape(s), std::invalid_argument, "reshape of an array with attribute names");
        break;
      }
      log << "reshape array " << w << " to " << pbt::str(s) << "; ";
      if (s.size() == 2 && c.b())
        p.a.reshape(s[0], s[1]);
      else
        p.a.reshape(s);
      p.m.shape = s;
      view_op   = view_op || !p.m.whole;
      break;
    }
    case 6: {
      name    = "copy";
      auto& p = live[w];
      Model<T> m = p.m;
      m.data     = std::make_shared<std::vector<T>>();
      for (auto k : p.m.idx)
        m.data->push_back((*p.m.data)[k]);
      for (std::size_t k = 0; k < m.idx.size(); ++k)
        m.idx[k] = k;
      m.whole        = true;
      m.concatenated = false;
      log << "deep copy of array " << w << "; ";
      NdArray<T> a = p.a.copy();
      view_op      = view_op || !p.m.whole;
      live.push_back({a, m});
      break;
    }
    case 7: {
      name = "share";
      auto p = live[w];
      log << "shared copy of array " << w << "; ";
      p.m.whole = p.m.whole;
      if (c.b()) {
        live.push_back(p);
      } else {
        NdArray<T> other(Shape{1});
        other = p.a;
        live.push_back({other, p.m});
      }
      break;
    }
    case 8: {
      name = "concatenate";
      // nor along the axis the names belong to
      if (!live[w].m.whole || (live[w].m.shape.size() == 1 && !live[w].m.attrs.empty()))
        break;
      // arrays that share the storage do not follow, so take one nobody shares
      bool shared = false;
      for (std::size_t k = 0; k < live.size(); ++k)
        shared = shared || (k != w && live[k].m.data == live[w].m.data);
      if (shared)
        break;
      Shape s = live[w].m.shape;
      s[0]    = c.n(1, 4);
      std::vector<T> d(product(s));
      for (auto& v : d)
        v = value<T>(c);
      NdArray<T> add(s, d);
      std::size_t o = c.n(0, live.size() - 1);
      auto& p = live[w];
      if (c.b(1, 4) && o != w && !live[o].m.concatenated && live[o].m.shape.size() == s.size() &&
          std::equal(s.begin() + 1, s.end(), live[o].m.shape.begin() + 1)) {
        add = live[o].a;
        d.clear();
        for (auto k : live[o].m.idx)
          d.push_back((*live[o].m.data)[k]);
        s = live[o].m.shape;
      }
      if (c.b(1, 5)) {
        Shape bad = s;
        if (bad.size() > 1 && c.b())
          bad.back()++;
        else
          bad.push_back(2);
        CHECK_THROWS(p.a.concatenate(NdArray<T>(bad)), std::length_error, "concatenation of " << pbt::str(bad) << " to " << pbt::str(p.m.shape));
        break;
      }
      log << "concatenate " << pbt::str(s) << " to array " << w << "; ";
      p.a.concatenate(add);
      p.m.shape[0] += s[0];
      for (auto v : d) {
        p.m.idx.push_back(p.m.data->size());
        p.m.data->push_back(v);
      }
      p.m.concatenated = true;
      break;
    }
    case 9: {
      name    = "out of range access";
      auto& p = live[w];
      Shape co = unravel(c.n(0, p.m.idx.size() - 1), p.m.shape);
      std::size_t how = c.n(0, 3);
      if (how == 0) {
        std::size_t ax = c.n(0, co.size() - 1);
        co[ax]         = p.m.shape[ax] + c.n(0, 2);
        CHECK_THROWS(p.a.at(co), std::out_of_range, "access to " << pbt::str(co) << " in shape " << pbt::str(p.m.shape));
        const NdArray<T>& ca = p.a;
        CHECK_THROWS(ca.at(co), std::out_of_range, "access to " << pbt::str(co) << " in shape " << pbt::str(p.m.shape));
      } else if (how == 1) {
        co.push_back(0);
        CHECK_THROWS(p.a.at(co), std::out_of_range, "access with too many coordinates");
      } else if (how == 2) {
        co.pop_back();
        CHECK_THROWS(p.a.at(co), std::out_of_range, "access with too few coordinates");
      } else {
        co.pop_back();
        CHECK_THROWS(p.a.at(co, "no such attribute"), std::out_of_range, "access to an unknown attribute");
      }
      break;
    }
    case 10: {
      name    = "variadic access";
      auto& p = live[w];
      std::size_t k  = c.n(0, p.m.idx.size() - 1);
      auto        co = unravel(k, p.m.shape);
      const NdArray<T>& ca = p.a;
      T v = (*p.m.data)[p.m.idx[k]];
      if (co.size() == 1)
        CHECK(p.a.at(co[0]) == v && ca.at(co[0]) == v, "at(i) differs from at({i})");
      else if (co.size() == 2)
        CHECK(p.a.at(co[0], co[1]) == v && ca.at(co[0], co[1]) == v, "at(i, j) differs from at({i, j})");
      else if (co.size() == 3)
        CHECK(p.a.at(co[0], co[1], co[2]) == v && ca.at(co[0], co[1], co[2]) == v, "at(i, j, k) differs from at({i, j, k})");
      if (co.size() == 2 && !p.m.attrs.empty())
        CHECK(p.a.at(co[0], p.m.attrs[co[1]]) == v, "at(i, name) differs from at({i, j})");
      break;
    }
    default: {
      name     = "compare";
      auto&  p = live[w];
      std::size_t o = c.n(0, live.size() - 1);
      auto&  q = live[o];
      if (p.m.concatenated || q.m.concatenated)
        break;
      bool eq = p.m.shape == q.m.shape;
      for (std::size_t k = 0; eq && k < p.m.idx.size(); ++k)
        eq = (*p.m.data)[p.m.idx[k]] == (*q.m.data)[q.m.idx[k]];
      CHECK((p.a == q.a) == eq, "arrays " << w << " and " << o << " compare " << (p.a == q.a));
      CHECK((p.a != q.a) == !eq, "arrays " << w << " and " << o << " compare != " << (p.a != q.a));
      c.label("equal arrays", eq && o != w);
      break;
    }
    }
    c.describe([&](std::ostream& o) {
      o << log.str();
      log.str("");
    });
    if (live.size() > 8)
      live.erase(live.begin() + static_cast<long>(c.n(0, live.size() - 1)));
    for (std::size_t k = 0; k < live.size(); ++k)
      verify(live[k], name, k);
    c.label(name);
  }
  c.nontrivial(view_op && wrote);
}

}  // namespace

PBT_TEST(histories_int, pbt::cases(20000, 400000)) { history<int>(c); }
PBT_TEST(histories_double, pbt::cases(8000, 200000)) { history<double>(c); }

// Random access iterators over an array or a view
PBT_TEST(iterators, pbt::cases(20000, 300000)) {
  Shape s = genShape(c);
  std::vector<int> d(product(s));
  for (std::size_t k = 0; k < d.size(); ++k)
    d[k] = static_cast<int>(k * 7 + 3);
  NdArray<int>     a(s, d);
  std::vector<int> e = d;
  while (a.shape().size() > 1 && c.b()) {
    bool             last = c.b();
    Shape            sh   = a.shape();
    std::size_t      at   = c.n(0, (last ? sh.back() : sh.front()) - 1);
    std::vector<int> f;
    for (std::size_t k = 0; k < e.size(); ++k) {
      auto co = unravel(k, sh);
      if ((last ? co.back() : co.front()) == at)
        f.push_back(e[k]);
    }
    NdArray<int> v = last ? a.rslice(at) : a.slice(at);
    // a view is re-seated by copy construction
    a = v;
    e = f;
    c.nontrivial(e.size() > 1);
  }
  c.describe([&](std::ostream& o) { o << "shape " << pbt::str(s) << " viewed as " << pbt::str(a.shape()); });
  auto        it  = a.begin();
  std::size_t pos = 0, n = e.size();
  for (int step = 0; step < 12; ++step) {
    std::size_t op = c.n(0, 7);
    if (op == 0 && pos < n) {
      ++it;
      ++pos;
    } else if (op == 1 && pos < n) {
      auto old = it++;
      CHECK(old == a.begin() + pos, "post-increment does not return the old position");
      ++pos;
    } else if (op == 2) {
      std::size_t k = c.n(0, n - pos);
      it += k;
      pos += k;
    } else if (op == 3) {
      std::size_t k = c.n(0, pos);
      it -= k;
      pos -= k;
    } else if (op == 4) {
      std::size_t k = c.n(0, n - pos);
      auto        j = it + k;
      CHECK(j - it == static_cast<std::ptrdiff_t>(k), "(it + k) - it is not k");
      CHECK((j > it) == (k > 0) && (it < j) == (k > 0) && !(j < it) && !(it > j), "iterator order");
      CHECK((j == it) == (k == 0) && (j != it) == (k != 0), "iterator equality");
    } else if (op == 5) {
      std::size_t k = c.n(0, pos);
      auto        j = it - k;
      CHECK(it - j == static_cast<std::ptrdiff_t>(k), "it - (it - k) is not k");
    } else if (op == 6 && pos < n) {
      std::size_t k = c.n(0, n - pos - 1);
      CHECK(it[k] == e[pos + k], "it[k]");
      NdArray<int>::const_iterator ci = it;
      CHECK(ci[k] == e[pos + k] && *ci == e[pos], "const iterator made from an iterator");
    } else if (op == 7 && pos < n) {
      *it    = 1000 + step;
      e[pos] = 1000 + step;
    }
    CHECK(static_cast<std::size_t>(it - a.begin()) == pos, "position after an iterator operation");
    if (pos < n)
      CHECK(*it == e[pos], "value after an iterator operation: " << *it << " instead of " << e[pos]);
    else
      CHECK(it == a.end(), "end reached, but not equal to end()");
  }
  std::vector<int> all(a.begin(), a.end());
  CHECK(all == e, "contents after writing through iterators");
}

// Arrays whose sides, strides or sizes do not fit in 16 bits
PBT_TEST(large_arrays, pbt::cases(60, 1200)) {
  Shape s;
  switch (c.n(0, 3)) {
  case 0: s = {c.n(65537, 140000)}; break;
  case 1: s = {c.n(2, 40), c.n(4000, 70000) / 2}; break;
  case 2: s = {c.n(4000, 70000) / 2, c.n(2, 9), 1}; break;
  default: s = {c.n(30, 60), c.n(30, 60), c.n(30, 60)};
  }
  std::size_t n = product(s);
  int         k1 = static_cast<int>(c.n(1, 1000003));
  auto        value = [k1](std::size_t k) { return static_cast<int>((k * 2654435761ull + static_cast<std::size_t>(k1)) & 0x7fffffff); };
  std::vector<int> d(n);
  for (std::size_t k = 0; k < n; ++k)
    d[k] = value(k);
  c.describe([&](std::ostream& o) { o << "shape " << pbt::str(s); });
  c.nontrivial(n > 65536);
  NdArray<int> a(s, d);
  CHECK(a.size() == n && a.shape() == s, "size or shape");
  std::size_t k = 0;
  for (auto i = a.begin(); i != a.end(); ++i, ++k)
    CHECK(*i == d[k], "iteration, position " << k);
  CHECK(k == n && static_cast<std::size_t>(a.end() - a.begin()) == n, "iteration ends after " << k);
  std::vector<std::size_t> probe{0, n - 1, n / 2};
  for (int j = 0; j < 300; ++j)
    probe.push_back(c.n(0, n - 1));
  for (auto p : probe) {
    auto co = unravel(p, s);
    CHECK(a.at(co) == d[p] && a.begin()[static_cast<std::ptrdiff_t>(p)] == d[p], "element " << pbt::str(co));
    a.at(co) = d[p] = value(n + p);
  }
  for (std::size_t j = 1; j < probe.size(); ++j) {
    auto p = static_cast<std::ptrdiff_t>(probe[j - 1]), q = static_cast<std::ptrdiff_t>(probe[j]);
    auto x = a.begin() + p, y = a.begin() + q;
    CHECK((x < y) == (p < q) && (x > y) == (p > q) && (x == y) == (p == q), "iterators at " << p << " and " << q << " compare wrongly");
    CHECK(y - x == q - p && *(x + (q - p)) == d[q], "distance of the iterators at " << p << " and " << q);
  }
  auto b = a.copy();
  CHECK(b == a && !(b != a), "a copy differs");
  if (s.size() > 1) {
    for (int j = 0; j < 4; ++j) {
      std::size_t f = c.n(0, s.front() - 1), l = c.n(0, s.back() - 1), rest = n / s.front(), rrest = n / s.back();
      auto        v = a.slice(f), w = a.rslice(l);
      CHECK(v.size() == rest && w.size() == rrest, "size of a slice");
      k = 0;
      for (auto i = v.begin(); i != v.end(); ++i, ++k)
        CHECK(*i == d[f * rest + k], "slice " << f << ", position " << k);
      CHECK(k == rest, "iteration of a slice");
      k = 0;
      for (auto i = w.begin(); i != w.end(); ++i, ++k)
        CHECK(*i == d[k * s.back() + l], "rslice " << l << ", position " << k);
      CHECK(k == rrest, "iteration of an rslice");
      std::size_t q = c.n(0, rrest - 1);
      Shape       head(s.begin(), s.end() - 1);
      CHECK(w.at(unravel(q, head)) == d[q * s.back() + l], "element of an rslice");
    }
  }
  auto other = factor(c, n);
  auto& r    = a.reshape(other);
  for (auto p : probe)
    CHECK(r.at(unravel(p, other)) == d[p], "element after reshape to " << pbt::str(other));
}

// Two arrays are equal only if no element differs, wherever it is
PBT_TEST(single_difference, pbt::cases(20000, 300000)) {
  std::size_t n = c.b(1, 6) ? c.n(0, 70000) + 1 : c.size(1, 40, 700, 60);
  Shape       s = factor(c, n);
  std::vector<int> d(n);
  for (std::size_t k = 0; k < n; ++k)
    d[k] = static_cast<int>(k % 251);
  std::size_t p = c.n(0, n - 1);
  switch (c.n(0, 3)) {
  case 0: p = n - 1; break;
  case 1: p = std::min(n - 1, (std::size_t(1) << c.n(0, 16)) - c.n(0, 1)); break;
  default: break;
  }
  c.describe([&](std::ostream& o) { o << "shape " << pbt::str(s) << ", the elements at " << p << " differ"; });
  c.nontrivial(n > 1);
  NdArray<int> a(s, d), b(s, d);
  CHECK(a == b && b == a && !(a != b), "arrays of the same elements differ");
  b.at(unravel(p, s)) += c.b() ? 1 : -1;
  CHECK(!(a == b) && !(b == a) && a != b && b != a, "arrays which differ at " << p << " are equal");
}

// Data of the wrong size is refused, whatever the shape
PBT_TEST(size_mismatch, pbt::cases(10000, 100000)) {
  Shape       s(c.n(1, 4));
  std::size_t big = c.b(1, 2);
  for (auto& v : s)
    v = big ? c.pick({65536ul, 65537ul, 1ul, 3ul, 1ul << 16, (1ul << 31) + 1, 1ul << 20}) : c.n(1, 6);
  unsigned __int128 p = 1;
  for (auto v : s)
    p *= v;
  std::size_t n;
  if (big) {
    if (p <= 70000 || p > (static_cast<unsigned __int128>(1) << 63))
      throw pbt::Discard();
    n = static_cast<std::size_t>(p) & 0xffffffffu;  // what is left of the size in 32 bits
    if (n > 70000 || n == p)
      n = c.n(0, 100);
  } else {
    n = c.n(0, 40);
    if (n == p)
      n++;
  }
  c.describe([&](std::ostream& o) { o << "shape " << pbt::str(s) << " with " << n << " elements"; });
  c.nontrivial(big);
  std::vector<char> d(n);
  CHECK_THROWS((NdArray<char>(s, d)), std::invalid_argument, "data that does not fit the shape");
  CHECK_THROWS((NdArray<char>(s, d.begin(), d.end())), std::invalid_argument, "data that does not fit the shape");
  std::vector<char> d2(d);
  CHECK_THROWS((NdArray<char>(s, std::move(d2))), std::invalid_argument, "data that does not fit the shape");
  if (n > 0) {
    NdArray<char> a(Shape{n}, d);
    CHECK_THROWS(a.reshape(s), std::range_error, "reshape to another size");
  }
}

// The product of the sizes wraps around to the number of elements
PBT_TEST(wrapped_size, pbt::cases(4000, 40000)) {
  std::size_t n = c.n(0, 60), odd = 2 * c.n(1, c.b() ? 100 : (1ul << 40)) + 1, inverse = odd;
  for (int k = 0; k < 6; ++k)
    inverse *= 2 - odd * inverse;
  Shape s = c.b() && n > 0 ? Shape{odd, n * inverse} : c.b() && n > 0 ? Shape{n, inverse, odd} : Shape{std::size_t{1} << c.n(32, 63), std::size_t{1} << 32};
  n = 1;
  for (auto v : s)
    n *= v;  // 0 for the powers of two
  long double p = 1;
  for (auto v : s)
    p *= v;
  if (p < 18446744073709551616.0L)
    throw pbt::Discard();
  c.describe([&](std::ostream& o) { o << "shape " << pbt::str(s) << " with " << n << " elements"; });
  c.nontrivial(n > 0);
  std::vector<char> d(n);
  CHECK_THROWS((NdArray<char>(s, d)), std::exception, "data that does not fit the shape");
  CHECK_THROWS((NdArray<char>(s, d.begin(), d.end())), std::exception, "data that does not fit the shape");
  CHECK_THROWS((NdArray<char>(s)), std::exception, "an array with more elements than can be counted");
  if (n > 0) {
    NdArray<char> a(Shape{n}, d);
    CHECK_THROWS(a.reshape(s), std::exception, "reshape to another size");
    CHECK(a.shape() == Shape{n}, "a refused reshape changed the shape");
  }
}

PBT_KNOWN(concatenate_size, "after concatenate() size() and iteration still cover only the original elements (pinned by the existing Concatenate_test)") {
  NdArray<int> a(Shape{2, 3}, std::vector<int>{1, 2, 3, 4, 5, 6});
  a.concatenate(NdArray<int>(Shape{1, 3}, std::vector<int>{7, 8, 9}));
  CHECK(a.size() == 9 && a.end() - a.begin() == 9, "size() is " << a.size() << " for shape (3, 3)");
}
