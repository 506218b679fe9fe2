// C15: tables refuse what does not fit their columns, and cells convert only without losing their meaning
#include "Table/CastVisitor.h"
#include "common/tables.h"

using namespace tables;
using Euclid::Table::CastVisitor;

namespace {

PBT_TEST(rows_and_tables, pbt::cases(10000, 200000)) {
  Profile   p;
  Generated g = generate(c, p, 6, 8);
  c.describe([&](std::ostream& o) { show(o, g); });
  std::size_t n = g.info->size();
  // what was put in is what is there
  Tab t = g.table(0, g.rows.size());
  CHECK(t.size() == g.rows.size() && *t.getColumnInfo() == *g.info, "size or columns of the table");
  std::size_t r = 0;
  for (auto& row : t) {
    CHECK(row.size() == n && &row == &t[r], "row " << r);
    std::size_t i = 0;
    for (auto& x : row) {
      CHECK(same(g.rows[r][i], x, 0), "row " << r << ", column " << i << ": " << show(x));
      CHECK(same(g.rows[r][i], row[i], 0) && same(g.rows[r][i], row[g.info->getDescription(i).name], 0), "row " << r << ", column " << i << " by index or name");
      ++i;
    }
    CHECK(i == n, "cells of row " << r);
    ++r;
  }
  CHECK(r == t.size(), "rows iterated");
  CHECK_THROWS(t[t.size() + c.n(0, 3)], Elements::Exception, "row out of bounds");
  CHECK_THROWS(t[0][n + c.n(0, 3)], Elements::Exception, "cell out of bounds");
  std::string unknown = text(c, p, 3);
  bool        is      = false;
  for (std::size_t i = 0; i < n; ++i)
    is = is || g.info->getDescription(i).name == unknown;
  if (!is) {
    CHECK_THROWS(t[0][unknown], Elements::Exception, "unknown column");
    CHECK_THROWS(g.info->getDescription(unknown), Elements::Exception, "unknown column");
    CHECK(!g.info->find(unknown), "unknown column found");
  }
  for (std::size_t i = 0; i < n; ++i) {
    auto f = g.info->find(g.info->getDescription(i).name);
    CHECK(f && *f == i, "column " << i << " by name");
    CHECK(&g.info->getDescription(g.info->getDescription(i).name) == &g.info->getDescription(i), "description by name");
  }
  CHECK_THROWS(g.info->getDescription(n + c.n(0, 3)), Elements::Exception, "description out of bounds");

  // a row that does not fit
  auto bad = g.rows[c.n(0, g.rows.size() - 1)];
  std::size_t i = c.n(0, n - 1);
  switch (c.draw(5)) {
  case 0: bad.pop_back(); break;
  case 1: bad.push_back(bad[0]); break;
  case 2: {
    ColumnGen o = g.gens[i];
    o.kind      = (o.kind + 1 + static_cast<int>(c.n(0, KINDS - 2))) % KINDS;
    bad[i]      = cell(c, o, p);
    c.nontrivial();
    break;
  }
  default: {
    std::vector<ColumnDescription> d;
    for (std::size_t k = 0; k < n; ++k)
      d.push_back(g.info->getDescription(k));
    d[i].type = typeid(std::string);
    g.info    = std::make_shared<ColumnInfo>(d);
    auto s    = text(c, p, 4);
    if (c.b(1, 4))
      s.clear();
    else
      s.insert(c.n(0, s.size()), 1, c.pick({'\n', '\r', '\v', '\f'}));
    bad[i] = s;
    c.nontrivial();
  }
  }
  CHECK_THROWS(Row(bad, g.info), Elements::Exception, "a row that does not fit the columns is accepted");
  CHECK_THROWS(Row(bad, nullptr), Elements::Exception, "a row without columns is accepted");
}

PBT_TEST(columns, pbt::cases(10000, 200000)) {
  Profile                        p;
  Generated                      g = generate(c, p, 5, 1);
  std::vector<ColumnDescription> d;
  for (std::size_t k = 0; k < g.info->size(); ++k)
    d.push_back(g.info->getDescription(k));
  auto        e    = d;
  std::size_t i    = c.n(0, d.size() - 1);
  bool        same = true;
  int         how  = static_cast<int>(c.draw(7));
  switch (how) {
  case 0: break;
  case 1: e[i].description += "!"; break;
  case 2: e[i].unit += "m", same = false; break;
  case 3: e[i].name = "another name altogether", same = false; break;
  case 4: e[i].type = typeOf((g.gens[i].kind + 1 + static_cast<int>(c.n(0, KINDS - 2))) % KINDS), same = false; break;
  case 5: e.emplace_back("another name altogether"), same = false; break;
  case 6:
    if (e.size() > 1)
      std::swap(e[0], e[1]), same = false;
  }
  c.nontrivial(d.size() > 1 && how > 0);
  c.describe([&](std::ostream& o) { o << d.size() << " columns, change " << how << " of column " << i; });
  ColumnInfo a(d), b(e);
  CHECK((a == b) == same && (a != b) == !same && (b == a) == same, "comparison of columns");
  auto bi = std::make_shared<ColumnInfo>(e);
  if (how != 4 && how != 5 && how != 6) {
    std::vector<Row> rows{Row(g.rows[0], g.info), Row(g.rows[0], bi)};
    if (c.b())
      std::swap(rows[0], rows[1]);
    if (same)
      CHECK(Tab(rows).size() == 2, "rows of the same columns");
    else
      CHECK_THROWS(Tab{rows}, Elements::Exception, "rows of different columns in a table");
  }
  // duplicates and bad names
  e = d;
  e.insert(e.begin() + static_cast<long>(c.n(0, e.size())), d[i]);
  CHECK_THROWS(ColumnInfo{e}, Elements::Exception, "duplicate column name accepted");
  CHECK_THROWS(ColumnInfo(std::vector<ColumnDescription>{}), Elements::Exception, "no columns accepted");
  CHECK_THROWS(ColumnDescription(""), Elements::Exception, "empty name accepted");
  auto s = d[i].name;
  s.insert(c.n(0, s.size()), 1, c.pick({'\n', '\r', '\v', '\f'}));
  CHECK_THROWS(ColumnDescription{s}, Elements::Exception, "name with line break accepted");
  CHECK_THROWS(Tab(std::vector<Row>{}), Elements::Exception, "empty table accepted");
}

// ------------------------------------------------------------------ casts
// what a cast gives: a value or a refusal
template <typename To>
struct Expect {
  bool ok = false;
  To   value{};
};
template <typename To, typename From>
constexpr bool widens() {
  return std::is_same<To, From>::value ||
         (std::is_same<To, double>::value && std::is_arithmetic<From>::value) ||
         (std::is_same<To, float>::value && std::is_arithmetic<From>::value && !std::is_same<From, double>::value) ||
         (std::is_same<To, int64_t>::value && std::is_integral<From>::value) ||
         (std::is_same<To, int32_t>::value && std::is_integral<From>::value && !std::is_same<From, int64_t>::value);
}
template <typename To>
struct Oracle : public boost::static_visitor<Expect<To>> {
  template <typename From>
  Expect<To> operator()(const From& f) const { return scalar(f, std::integral_constant<bool, widens<To, From>()>()); }
  Expect<To> operator()(const std::string&) const { return {}; }
  template <typename From>
  Expect<To> scalar(const From& f, std::true_type) const {
    Expect<To> e;
    e.ok    = true;
    e.value = static_cast<To>(f);
    return e;
  }
  template <typename From>
  Expect<To> scalar(const From&, std::false_type) const { return {}; }
};
template <typename T>
struct Oracle<std::vector<T>> : public boost::static_visitor<Expect<std::vector<T>>> {
  template <typename From>
  Expect<std::vector<T>> operator()(const From& f) const {
    auto x = Oracle<T>()(f);
    Expect<std::vector<T>> e;
    e.ok = x.ok;
    e.value.push_back(x.value);
    return e;
  }
  template <typename From>
  Expect<std::vector<T>> operator()(const std::vector<From>& f) const {
    Expect<std::vector<T>> e;
    e.ok = true;
    for (From v : f) {
      auto x = Oracle<T>()(v);
      e.ok   = e.ok && x.ok;
      e.value.push_back(x.value);
    }
    return e;
  }
};

template <typename To>
void castTo(Case& c, const Cell& x) {
  auto e = boost::apply_visitor(Oracle<To>(), x);
  c.describe([&](std::ostream& o) { o << show(x) << " of type " << x.which() << " cast to " << typeid(To).name() << ": " << (e.ok ? "possible" : "refused"); });
  if (!e.ok) {
    CHECK_THROWS(boost::apply_visitor(CastVisitor<To>(), x), Elements::Exception, "cast of " << show(x));
    return;
  }
  To got = boost::apply_visitor(CastVisitor<To>(), x);
  CHECK(sameValue(e.value, got, 0), "cast of " << show(x) << " gives another value");
}

PBT_TEST(casts, pbt::cases(20000, 400000)) {
  Profile   p;
  ColumnGen g;
  do {
    g.kind = static_cast<int>(c.draw(KINDS));
  } while (false);
  if (g.kind == STRING)
    g.kind = DOUBLE;
  Cell x = cell(c, g, p);
  int  to = static_cast<int>(c.draw(12));
  c.nontrivial(to != g.kind);
  switch (to) {
  case 0: castTo<bool>(c, x); break;
  case 1: castTo<int32_t>(c, x); break;
  case 2: castTo<int64_t>(c, x); break;
  case 3: castTo<float>(c, x); break;
  case 4: castTo<double>(c, x); break;
  case 5: castTo<std::vector<int32_t>>(c, x); break;
  case 6: castTo<std::vector<int64_t>>(c, x); break;
  case 7: castTo<std::vector<float>>(c, x); break;
  case 8: castTo<std::vector<double>>(c, x); break;
  case 9: castTo<NdArray<double>>(c, x); break;
  case 10: castTo<NdArray<int32_t>>(c, x); break;
  case 11: castTo<std::vector<bool>>(c, x); break;
  }
}

template <typename T>
T fromText(const std::string& s);
template <>
int32_t fromText<int32_t>(const std::string& s) { return static_cast<int32_t>(std::stoll(s)); }
template <>
int64_t fromText<int64_t>(const std::string& s) { return std::stoll(s); }
template <>
double fromText<double>(const std::string& s) { return std::strtod(s.c_str(), nullptr); }
template <>
float fromText<float>(const std::string& s) { return std::strtof(s.c_str(), nullptr); }

template <typename T>
std::string print(T v) {
  std::ostringstream o;
  o.precision(std::is_same<T, float>::value ? 9 : 17);
  o << v;
  return o.str();
}

template <typename T>
void texts(Case& c) {
  std::vector<T>           v;
  std::vector<std::string> s;
  std::size_t              n = c.n(1, 4);
  for (std::size_t k = 0; k < n; ++k) {
    T x = Scalar<T>::get(c);
    if (std::isinf(static_cast<double>(x)) || std::isnan(static_cast<double>(x)))
      x = 1;
    v.push_back(x);
    s.push_back(print(x));
  }
  std::string all;
  for (auto& x : s)
    all += (all.empty() ? "" : ",") + x;
  c.describe([&](std::ostream& o) { o << "text '" << all << "' to " << typeid(T).name(); });
  c.nontrivial(n > 1);
  T one = boost::apply_visitor(CastVisitor<T>(), Cell(s[0]));
  CHECK(one == v[0], "'" << s[0] << "' is cast to " << print(one));
  auto got = boost::apply_visitor(CastVisitor<std::vector<T>>(), Cell(all));
  CHECK(got == v, "'" << all << "' is cast to " << pbt::str(got));
  // text that is no number, or one that is too large
  std::string big = std::is_floating_point<T>::value ? (c.b() ? "1e999" : "-1e400") : sizeof(T) == 4 ? (c.b() ? "2147483648" : "-99999999999") : (c.b() ? "9223372036854775808" : "-99999999999999999999");
  std::string bad = c.b() ? big : c.pick<std::string>({"abc", "x1", "--", "one", "_", s[0] + "x", s[0] + "_1", s[0] + " 2", s[0] + "-"});
  if (!std::is_floating_point<T>::value && c.b(1, 4))
    bad = s[0] + c.pick<std::string>({".5", ".0", "e1"});
  CHECK_THROWS(boost::apply_visitor(CastVisitor<T>(), Cell(bad)), Elements::Exception, "'" << bad << "' cast to a number");
  auto damaged = s;
  damaged[c.n(0, n - 1)] = bad;
  std::string all2;
  for (auto& x : damaged)
    all2 += (all2.empty() ? "" : ",") + x;
  CHECK_THROWS(boost::apply_visitor(CastVisitor<std::vector<T>>(), Cell(all2)), Elements::Exception, "'" << all2 << "' cast to numbers");
}

PBT_TEST(casts_from_text, pbt::cases(10000, 200000)) {
  switch (c.draw(4)) {
  case 0: texts<int32_t>(c); break;
  case 1: texts<int64_t>(c); break;
  case 2: texts<float>(c); break;
  default: texts<double>(c);
  }
}

struct TextVisitor : public boost::static_visitor<> {
  const std::vector<std::string>& parts;
  explicit TextVisitor(const std::vector<std::string>& q) : parts(q) {}
  void one(const std::string& t, bool v) const { CHECK(t == (v ? "1" : "0"), "'" << t << "' for a boolean"); }
  void one(const std::string& t, int32_t v) const { CHECK(t == std::to_string(v), "'" << t << "' for " << v); }
  void one(const std::string& t, int64_t v) const { CHECK(t == std::to_string(v), "'" << t << "' for " << v); }
  void one(const std::string& t, double v) const { CHECK(sameReal(v, std::strtod(t.c_str(), nullptr), 5.0001e-6, 5e-324), "'" << t << "' for " << v); }
  void one(const std::string& t, float v) const { CHECK(sameReal(v, std::strtod(t.c_str(), nullptr), 5.0001e-6, 1.5e-45), "'" << t << "' for " << v); }
  void operator()(const std::string&) const {}
  template <typename T>
  void operator()(const NdArray<T>&) const {}
  template <typename T>
  void operator()(const std::vector<T>& v) const {
    CHECK(parts.size() == v.size(), parts.size() << " elements instead of " << v.size());
    for (std::size_t k = 0; k < v.size(); ++k)
      one(parts[k], static_cast<T>(v[k]));
  }
  template <typename T>
  void operator()(const T& v) const {
    CHECK(parts.size() == 1, parts.size() << " elements instead of one");
    one(parts[0], v);
  }
};
// cells print as text that means the same
PBT_TEST(casts_to_text, pbt::cases(10000, 200000)) {
  Profile   p;
  ColumnGen g;
  g.kind = static_cast<int>(c.n(BOOL, VDOUBLE));
  Cell        x = cell(c, g, p);
  std::string s = boost::apply_visitor(CastVisitor<std::string>(), x);
  c.describe([&](std::ostream& o) { o << show(x) << " as text: '" << s << "'"; });
  c.nontrivial(g.kind > STRING);
  if (g.kind == STRING) {
    CHECK(s == boost::get<std::string>(x), "a string becomes '" << s << "'");
    return;
  }
  std::vector<std::string> parts;
  if (!s.empty()) {
    std::istringstream in(s);
    for (std::string t; std::getline(in, t, ',');)
      parts.push_back(t);
  }
  boost::apply_visitor(TextVisitor(parts), x);
}

}  // namespace
