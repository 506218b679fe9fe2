// Generated tables: columns and cells of all the types a table can have
#ifndef COMMON_TABLES_H
#define COMMON_TABLES_H
#include "ElementsKernel/Exception.h"
#include "Table/Table.h"
#include "pbt.h"
#include <memory>

namespace tables {

using Euclid::NdArray::NdArray;
using Euclid::Table::ColumnDescription;
using Euclid::Table::ColumnInfo;
using Euclid::Table::Row;
using Cell = Row::cell_type;
typedef Euclid::Table::Table Tab;
using pbt::Case;

enum Kind { BOOL, INT, LONG, FLOAT, DOUBLE, STRING, VBOOL, VINT, VLONG, VFLOAT, VDOUBLE, NINT, NLONG, NFLOAT, NDOUBLE, KINDS };

inline std::type_index typeOf(int k) {
  static const std::type_index t[] = {typeid(bool), typeid(int32_t), typeid(int64_t), typeid(float), typeid(double), typeid(std::string),
                                      typeid(std::vector<bool>), typeid(std::vector<int32_t>), typeid(std::vector<int64_t>),
                                      typeid(std::vector<float>), typeid(std::vector<double>), typeid(NdArray<int32_t>),
                                      typeid(NdArray<int64_t>), typeid(NdArray<float>), typeid(NdArray<double>)};
  return t[k];
}

// ------------------------------------------------------------------ values
template <typename T>
struct Scalar;
template <>
struct Scalar<bool> {
  static bool get(Case& c) { return c.b(); }
};
template <>
struct Scalar<int32_t> {
  static int32_t get(Case& c) {
    switch (c.draw(4)) {
    case 0: return static_cast<int32_t>(c.i(-9, 9));
    case 1: return c.pick({std::numeric_limits<int32_t>::min(), std::numeric_limits<int32_t>::max(), 1000000, -1000000});
    default: return static_cast<int32_t>(static_cast<uint32_t>(c.draw(1ull << 32)));
    }
  }
};
template <>
struct Scalar<int64_t> {
  static int64_t get(Case& c) {
    switch (c.draw(4)) {
    case 0: return c.i(-9, 9);
    case 1: return c.pick({std::numeric_limits<int64_t>::min(), std::numeric_limits<int64_t>::max(), static_cast<int64_t>(1) << 53, static_cast<int64_t>(-5000000000)});
    default: return static_cast<int64_t>(c.draw(0));
    }
  }
};
template <>
struct Scalar<double> {
  static double get(Case& c) {
    switch (c.draw(7)) {
    case 0: return static_cast<double>(c.i(-9, 9));
    case 1: return c.pick({std::numeric_limits<double>::max(), -std::numeric_limits<double>::max(), std::numeric_limits<double>::min(), 1e-310, -0.});
    case 2: return c.pick({std::numeric_limits<double>::infinity(), -std::numeric_limits<double>::infinity(), std::numeric_limits<double>::quiet_NaN(), 0.1});
    case 3: return (c.unit() - 0.5) * std::pow(10., static_cast<double>(c.i(-200, 200)));
    case 4: return static_cast<double>(c.i(-99999999, 99999999));
    default: return (c.unit() - 0.5) * 100.;
    }
  }
};
template <>
struct Scalar<float> {
  static float get(Case& c) {
    switch (c.draw(5)) {
    case 0: return static_cast<float>(c.i(-9, 9));
    case 1: return c.pick({std::numeric_limits<float>::max(), std::numeric_limits<float>::min(), std::numeric_limits<float>::infinity(), std::numeric_limits<float>::quiet_NaN()});
    case 2: return static_cast<float>((c.unit() - 0.5) * std::pow(10., static_cast<double>(c.i(-30, 30))));
    default: return static_cast<float>((c.unit() - 0.5) * 100.);
    }
  }
};

struct Profile {
  std::string forbidden;                 // text that may not occur in names, strings, units and descriptions
  bool        spaces       = true;       // strings and names with blanks, quotes and backslashes
  bool        empty_vector = true;
  unsigned    kinds        = (1u << KINDS) - 1;
  bool        fixed_shape  = false;      // vectors and arrays of a column have the same shape in all rows
};

inline void forbid(std::string& s, const std::string& f) {
  for (std::size_t p; !f.empty() && (p = s.find(f)) != std::string::npos;)
    s.replace(p, f.size(), "x");
}

inline std::string text(Case& c, const Profile& p, std::size_t max = 8) {
  static const std::string plain = "abcXYZ0129_-.,;:()[]<>#%/!=+*@&|~^$", fancy = " \t\"\\'";
  std::string              s;
  std::size_t              n = c.n(1, max);
  for (std::size_t k = 0; k < n; ++k) {
    if (p.spaces && c.b(1, 5))
      s += fancy[c.draw(fancy.size())];
    else if (c.b(1, 40))
      s += "\xC3\x85";
    else
      s += plain[c.b() ? c.draw(12) : c.draw(plain.size())];
  }
  forbid(s, p.forbidden);
  return s;
}
// words separated by single blanks
inline std::string words(Case& c, const Profile& p, std::size_t max, bool parens) {
  std::string s;
  std::size_t n = c.n(0, max);
  for (std::size_t k = 0; k < n; ++k) {
    static const std::string plain = "abcdefgXYZ012_-.,;:*/^+=%#!";
    std::string              w;
    std::size_t              len = c.n(1, 5);
    for (std::size_t j = 0; j < len; ++j)
      w += plain[c.draw(plain.size())];
    if (parens && c.b(1, 5))
      w = "(" + w + ")";
    s += (k ? " " : "") + w;
  }
  forbid(s, p.forbidden);
  return s;
}

template <typename T>
std::vector<T> vec(Case& c, std::size_t n) {
  std::vector<T> r;
  for (std::size_t k = 0; k < n; ++k)
    r.push_back(Scalar<T>::get(c));
  return r;
}
template <typename T>
Cell nd(Case& c, const std::vector<std::size_t>& shape) {
  std::size_t n = 1;
  for (auto s : shape)
    n *= s;
  return Cell(NdArray<T>(shape, vec<T>(c, n)));
}
inline std::vector<std::size_t> shape(Case& c) {
  std::vector<std::size_t> s(c.n(1, 3));
  for (auto& v : s)
    v = c.n(1, 3);
  return s;
}

struct ColumnGen {
  int                      kind;
  std::size_t              length;
  std::vector<std::size_t> shp;
};

inline Cell cell(Case& c, const ColumnGen& g, const Profile& p) {
  std::size_t n = p.fixed_shape ? g.length : (c.b(1, 60) ? c.n(4, 150) : c.n(p.empty_vector ? 0 : 1, 4));
  auto        s = p.fixed_shape ? g.shp : (g.kind >= NINT ? shape(c) : std::vector<std::size_t>());
  switch (g.kind) {
  case BOOL: return Cell(Scalar<bool>::get(c));
  case INT: return Cell(Scalar<int32_t>::get(c));
  case LONG: return Cell(Scalar<int64_t>::get(c));
  case FLOAT: return Cell(Scalar<float>::get(c));
  case DOUBLE: return Cell(Scalar<double>::get(c));
  case STRING: return Cell(text(c, p, c.b(1, 60) ? 400 : 8));
  case VBOOL: return Cell(vec<bool>(c, n));
  case VINT: return Cell(vec<int32_t>(c, n));
  case VLONG: return Cell(vec<int64_t>(c, n));
  case VFLOAT: return Cell(vec<float>(c, n));
  case VDOUBLE: return Cell(vec<double>(c, n));
  case NINT: return nd<int32_t>(c, s);
  case NLONG: return nd<int64_t>(c, s);
  case NFLOAT: return nd<float>(c, s);
  default: return nd<double>(c, s);
  }
}

struct Generated {
  std::vector<ColumnGen>         gens;
  std::shared_ptr<ColumnInfo>    info;
  std::vector<std::vector<Cell>> rows;
  Tab table(std::size_t from, std::size_t to) const {
    std::vector<Row> r;
    for (std::size_t k = from; k < to; ++k)
      r.emplace_back(rows[k], info);
    return Tab(r);
  }
};

inline std::vector<ColumnGen> columnGens(Case& c, const Profile& p, std::size_t lo, std::size_t hi) {
  std::vector<int> allowed;
  for (int k = 0; k < KINDS; ++k)
    if (p.kinds >> k & 1)
      allowed.push_back(k);
  std::vector<ColumnGen> g(c.n(lo, hi));
  for (auto& x : g) {
    x.kind   = c.pick(allowed);
    x.length = c.b(1, 40) ? c.n(4, 150) : c.n(2, 4);
    x.shp    = shape(c);
  }
  return g;
}

inline Generated generate(Case& c, const Profile& p, std::size_t max_cols, std::size_t max_rows) {
  Generated g;
  g.gens = columnGens(c, p, 1, max_cols);
  std::vector<ColumnDescription> d;
  std::set<std::string>          used;
  for (auto& x : g.gens) {
    std::string name = text(c, p, 6);
    if (name.compare(0, 6, "Column") == 0)
      name[0] = 'K';
    while (!used.insert(name).second)
      name += static_cast<char>('a' + c.draw(26));
    d.emplace_back(name, typeOf(x.kind), words(c, p, 2, true), words(c, p, 4, true));
  }
  g.info        = std::make_shared<ColumnInfo>(d);
  std::size_t n = c.size(1, max_rows, 60 * max_rows, 250);
  for (std::size_t r = 0; r < n; ++r) {
    std::vector<Cell> row;
    for (auto& x : g.gens)
      row.push_back(cell(c, x, p));
    g.rows.push_back(row);
  }
  return g;
}

// ------------------------------------------------------------------ comparison
inline bool sameReal(double a, double b, double rel, double abs) {
  if (std::isnan(a) || std::isnan(b))
    return std::isnan(a) && std::isnan(b);
  if (std::isinf(a) || std::isinf(b))
    return a == b;
  return std::abs(a - b) <= rel * std::abs(a) + abs;
}
template <typename T>
bool sameValue(const T& a, const T& b, double) { return a == b; }
inline bool sameValue(const double& a, const double& b, double rel) { return sameReal(a, b, rel, rel > 0 ? 5e-324 : 0); }
inline bool sameValue(const float& a, const float& b, double rel) { return sameReal(a, b, rel, rel > 0 ? 1.5e-45 : 0); }
template <typename T>
bool sameValue(const std::vector<T>& a, const std::vector<T>& b, double rel) {
  if (a.size() != b.size())
    return false;
  for (std::size_t k = 0; k < a.size(); ++k)
    if (!sameValue(static_cast<T>(a[k]), static_cast<T>(b[k]), rel))
      return false;
  return true;
}
template <typename T>
bool sameValue(const NdArray<T>& a, const NdArray<T>& b, double rel) {
  return a.shape() == b.shape() && sameValue(std::vector<T>(a.begin(), a.end()), std::vector<T>(b.begin(), b.end()), rel);
}
struct SameVisitor : public boost::static_visitor<bool> {
  const Cell& other;
  double      rel;
  SameVisitor(const Cell& o, double r) : other(o), rel(r) {}
  template <typename T>
  bool operator()(const T& a) const {
    auto* b = boost::get<T>(&other);
    return b && sameValue(a, *b, rel);
  }
};
// rel: how far a real may be from the first one, relative to it
inline bool same(const Cell& a, const Cell& b, double rel) { return boost::apply_visitor(SameVisitor(b, rel), a); }

struct ShowVisitor : public boost::static_visitor<std::string> {
  template <typename T>
  std::string operator()(const T& v) const { return pbt::str(v); }
  std::string operator()(const std::string& v) const { return "'" + v + "'"; }
  template <typename T>
  std::string operator()(const NdArray<T>& v) const { return "shape " + pbt::str(v.shape()) + " " + pbt::str(std::vector<T>(v.begin(), v.end())); }
};
inline std::string show(const Cell& a) { return boost::apply_visitor(ShowVisitor(), a); }
inline void        show(std::ostream& o, const Generated& g) {
  for (std::size_t i = 0; i < g.info->size(); ++i) {
    auto& d = g.info->getDescription(i);
    o << "column '" << d.name << "' kind " << g.gens[i].kind << " unit '" << d.unit << "' description '" << d.description << "'\n";
  }
  for (std::size_t r = 0; r < g.rows.size(); ++r) {
    o << "row";
    for (auto& x : g.rows[r])
      o << " | " << show(x);
    o << "\n";
  }
}

}  // namespace tables
#endif
