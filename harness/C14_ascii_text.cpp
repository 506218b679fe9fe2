// C14: ASCII tables written by hand are read as documented, and damaged ones are refused
#include "Table/AsciiReader.h"
#include "common/tables.h"
#include <sstream>

using namespace tables;
using Euclid::Table::AsciiReader;

namespace {

std::string blanks(Case& c, std::size_t lo) {
  std::string s;
  std::size_t n = c.n(lo, lo + 2);
  for (std::size_t k = 0; k < n; ++k)
    s += c.pick({' ', '\t', ' '});
  return s;
}

std::string keyword(Case& c, int kind) {
  static const std::vector<std::vector<std::string>> k{{"bool", "boolean"}, {"int", "int32"}, {"long", "int64"}, {"float"}, {"double"}, {"string"},
                                                       {"[bool]", "[boolean]"}, {"[int]", "[int32]"}, {"[long]", "[int64]"}, {"[float]"}, {"[double]"},
                                                       {"[int+]", "[int32+]"}, {"[long+]", "[int64+]"}, {"[float+]"}, {"[double+]"}};
  return c.pick(k[static_cast<std::size_t>(kind)]);
}

// a cell as text, and what it stands for
std::string render(Case& c, bool v) {
  std::string s = v ? c.pick<std::string>({"1", "true", "t", "yes", "y"}) : c.pick<std::string>({"0", "false", "f", "no", "n"});
  for (auto& ch : s)
    if (c.b(1, 3))
      ch = static_cast<char>(std::toupper(ch));
  return s;
}
std::string render(Case& c, int32_t v) { return std::to_string(v); }
std::string render(Case& c, int64_t v) { return std::to_string(v); }
template <typename T>
std::string renderReal(Case& c, T v, int digits) {
  std::ostringstream o;
  o.precision(digits);
  if (std::isfinite(v))
    switch (c.draw(3)) {
    case 0: o << std::scientific; break;
    case 1:
      if (std::abs(v) < 1e15 && (v == 0 || std::abs(v) > 1))
        o << std::fixed;
    }
  o << v;
  return o.str();
}
std::string render(Case& c, double v) { return renderReal(c, v, 17); }
std::string render(Case& c, float v) { return renderReal(c, v, 9); }
std::string render(Case& c, const std::string& v) {
  bool must = v.find_first_of(" \t") != std::string::npos || v[0] == '"';
  if (!must && !c.b(1, 4))
    return v;
  std::string s = "\"";
  for (char ch : v) {
    if (ch == '"' || ch == '\\')
      s += '\\';
    s += ch;
  }
  return s + "\"";
}
template <typename T>
std::string render(Case& c, const std::vector<T>& v) {
  std::string s;
  for (std::size_t k = 0; k < v.size(); ++k)
    s += (k ? "," : "") + render(c, static_cast<T>(v[k]));
  return v.empty() ? "\"\"" : s;
}
template <typename T>
std::string render(Case& c, const NdArray<T>& v) {
  std::string s = "<";
  auto        sh = v.shape();
  for (std::size_t k = 0; k < sh.size(); ++k)
    s += (k ? "," : "") + std::to_string(sh[k]);
  return s + ">" + render(c, std::vector<T>(v.begin(), v.end()));
}
struct Render : public boost::static_visitor<std::string> {
  Case& c;
  explicit Render(Case& cc) : c(cc) {}
  template <typename T>
  std::string operator()(const T& v) const { return render(c, v); }
};

// text that is not of that type
std::string damaged(Case& c, int kind) {
  switch (kind) {
  case BOOL: return c.pick<std::string>({"2", "tru", "yess", "-", "10", "on"});
  case INT: return c.pick<std::string>({"2147483648", "-2147483649", "1.5", "x", "1x", "0x10", "1e3", "true"});
  case LONG: return c.pick<std::string>({"9223372036854775808", "-9223372036854775809", "1.5", "x", "1_000", "1e3"});
  case FLOAT:
  case DOUBLE: return c.pick<std::string>({"x", "1.5x", "1,5", "1.2.3", "--1", "1e", "e5"});
  case VBOOL: return "1," + damaged(c, BOOL);
  case VINT: return "1," + damaged(c, INT);
  case VLONG: return damaged(c, LONG) + ",1";
  case VFLOAT:
  case VDOUBLE: return c.pick<std::string>({"1,x", "x,1", "1,2;3", "1.2.3"});
  default: {
    std::string k = kind == NINT || kind == NLONG ? "x" : "1..2";
    return c.pick<std::string>({"1,2", "<2>1,2,3", "<2,2>1,2", "<2>1," + k, "<2", "<x>1", "<-1>1", "<-1,-1>1", "<0>1", "<4294967297>1", "<65536,65536>1", "2>1,2", "<2,3>", "<>1"});
  }
  }
}

struct Document {
  Generated                g;
  std::string              mark;
  std::vector<std::string> names;      // expected names
  std::vector<bool>        described;  // whether the type comes from a description
  std::vector<std::string> lines;
  std::vector<std::size_t> data_line;  // index of the line of each row
  bool                     names_line = false;
};

std::string join(Case& c, const std::vector<std::string>& cells) {
  std::string s = blanks(c, 0);
  for (std::size_t k = 0; k < cells.size(); ++k)
    s += (k ? blanks(c, 1) : "") + cells[k];
  return s + blanks(c, 0);
}

Document document(Case& c, std::size_t max_rows) {
  Document d;
  d.mark = c.pick<std::string>({"#", "//", "%%"});
  Profile p;
  p.forbidden = d.mark;
  d.g         = generate(c, p, 5, max_rows);
  std::size_t n = d.g.gens.size();
  // 0: descriptions only, 1: names and some descriptions, 2: names only, 3: nothing
  int how = static_cast<int>(c.draw(4));
  d.described.assign(n, false);
  std::vector<std::size_t> order;
  for (std::size_t i = 0; i < n; ++i)
    order.push_back(i);
  if (how == 1)
    c.shuffle(order);
  auto comment = [&](const std::string& body) { return blanks(c, 0) + d.mark + blanks(c, 0) + body + blanks(c, 0); };
  auto filler  = [&]() {
    if (c.b(1, 4))
      d.lines.push_back(c.b() ? blanks(c, 0) : comment(""));
    if (c.b(1, 4)) {
      // as many words as columns would be the names
      std::string s;
      for (std::size_t k = 0; k < n + 1; ++k)
        s += "word" + std::to_string(k) + " ";
      d.lines.push_back(comment(s));
    }
  };
  filler();
  std::vector<std::string> units(n), descs(n);
  if (how <= 1)
    for (std::size_t i : order) {
      if (how == 1 && c.b(1, 3))
        continue;
      auto&       x = d.g.info->getDescription(i);
      std::string s = "Column:" + blanks(c, 1) + render(c, x.name);
      if (d.g.gens[i].kind != STRING || c.b())
        s += blanks(c, 1) + keyword(c, d.g.gens[i].kind);
      if (!x.unit.empty() && c.b()) {
        units[i] = x.unit;
        s += blanks(c, 1) + "(" + x.unit + ")";
      }
      if (!x.description.empty() && c.b()) {
        descs[i] = x.description;
        s += blanks(c, 1) + "-" + blanks(c, 1) + x.description;
      }
      d.lines.push_back(comment(s));
      d.described[i] = true;
      filler();
    }
  for (std::size_t i = 0; i < n; ++i)
    d.names.push_back(how == 3 ? "col" + std::to_string(i + 1) : d.g.info->getDescription(i).name);
  if (how == 1 || how == 2) {
    std::vector<std::string> q;
    for (auto& s : d.names)
      q.push_back(render(c, s));
    // a name that could be taken for a description
    d.lines.push_back(comment(join(c, q)));
    d.names_line = true;
    if (c.b(1, 3))
      d.lines.push_back(c.b() ? blanks(c, 0) : comment(""));
  } else if (how == 3) {
    filler();
  }
  for (auto& r : d.g.rows) {
    std::vector<std::string> cells;
    for (auto& x : r)
      cells.push_back(boost::apply_visitor(Render(c), x));
    std::string s = join(c, cells);
    if (c.b(1, 5))
      s += (c.b() || s.back() == d.mark[0] ? " " : "") + d.mark + " a comment \" at the end";
    d.data_line.push_back(d.lines.size());
    d.lines.push_back(s);
    if (c.b(1, 5))
      d.lines.push_back(c.b() ? blanks(c, 0) : comment("Column: in the middle"));
  }
  std::vector<ColumnDescription> cd;
  for (std::size_t i = 0; i < n; ++i)
    cd.emplace_back(d.names[i], typeOf(d.g.gens[i].kind), units[i], descs[i]);
  d.g.info = std::make_shared<ColumnInfo>(cd);
  return d;
}

std::string text(Case& c, const Document& d) {
  std::string s, end = c.b(1, 5) ? "\r\n" : "\n";
  for (std::size_t k = 0; k < d.lines.size(); ++k)
    s += d.lines[k] + (k + 1 == d.lines.size() && c.b() ? "" : end);
  return s;
}

// Prepares the reader so that the types are those of the document
void prepare(Case& c, const Document& d, AsciiReader& r) {
  r.setCommentIndicator(d.mark);
  bool all = true;
  for (bool b : d.described)
    all = all && b;
  if (!all || c.b(1, 5)) {
    std::vector<std::type_index> t;
    for (auto& x : d.g.gens)
      t.push_back(typeOf(x.kind));
    r.fixColumnTypes(t);
  }
}

PBT_TEST(documented_format, pbt::cases(12000, 300000)) {
  Document    d = document(c, 8);
  std::string s = text(c, d);
  c.describe([&](std::ostream& o) { o << "text\n" << s; });
  std::istringstream in(s);
  AsciiReader        r(in);
  bool               untyped = c.b(1, 4);
  if (untyped)
    r.setCommentIndicator(d.mark);
  else
    prepare(c, d, r);
  c.nontrivial(d.g.rows.size() > 1 && d.names.size() > 1);
  auto& info = r.getInfo();
  CHECK(info.size() == d.names.size(), info.size() << " columns instead of " << d.names.size());
  for (std::size_t i = 0; i < info.size(); ++i) {
    auto &x = info.getDescription(i), &y = d.g.info->getDescription(i);
    CHECK(x.name == d.names[i], "column " << i << " is named '" << x.name << "' instead of '" << d.names[i] << "'");
    if (!untyped)
      CHECK(x.type == y.type, "type of column " << i);
    else
      CHECK(x.type == (d.described[i] ? y.type : std::type_index(typeid(std::string))), "type of column " << i);
    CHECK(x.unit == y.unit, "unit of column " << i << ": '" << x.unit << "' instead of '" << y.unit << "'");
    CHECK(x.description == y.description, "description of column " << i << ": '" << x.description << "' instead of '" << y.description << "'");
  }
  CHECK(r.hasMoreRows() && r.rowsLeft() == d.g.rows.size(), r.rowsLeft() << " rows instead of " << d.g.rows.size());
  if (untyped) {
    // a quoted cell that is empty cannot be a string
    for (auto& row : d.g.rows)
      for (std::size_t i = 0; i < row.size(); ++i)
        if (!d.described[i] && boost::apply_visitor(Render(c), row[i]) == "\"\"")
          return;
  }
  Tab t = r.read();
  CHECK(t.size() == d.g.rows.size(), t.size() << " rows instead of " << d.g.rows.size());
  for (std::size_t k = 0; k < t.size(); ++k)
    for (std::size_t i = 0; i < info.size(); ++i)
      if (!untyped || d.described[i])
        CHECK(same(d.g.rows[k][i], t[k][i], 1e-15), "row " << k << ", column " << i << ": " << show(t[k][i]) << " instead of " << show(d.g.rows[k][i]));
  CHECK(!r.hasMoreRows() && r.rowsLeft() == 0, "rows left after reading all");
}

PBT_TEST(damaged_tables, pbt::cases(12000, 300000)) {
  Document    d = document(c, 5);
  std::size_t n = d.names.size(), row = c.n(0, d.g.rows.size() - 1), col = c.n(0, n - 1);
  std::vector<std::string> cells;
  for (auto& x : d.g.rows[row])
    cells.push_back(boost::apply_visitor(Render(c), x));
  int how = static_cast<int>(c.draw(7));
  std::string what;
  bool        wrong_types = false;
  switch (how) {
  case 0:
    if (d.g.gens[col].kind == STRING)
      throw pbt::Discard();
    cells[col] = damaged(c, d.g.gens[col].kind);
    what       = "cell '" + cells[col] + "'";
    break;
  case 1:
    // the first row says how many columns there are
    if (d.g.rows.size() < 2)
      throw pbt::Discard();
    row = std::max<std::size_t>(row, 1);
    if (c.b() && n > 1)
      cells.pop_back();
    else
      cells.push_back("1");
    what = "number of cells";
    break;
  case 2: {
    if (!d.names_line || n < 2)
      throw pbt::Discard();
    what = "duplicate name";
    for (std::size_t k = 0; k < d.lines.size(); ++k)
      if (k < d.data_line[0] && d.lines[k].find("Column:") != std::string::npos)
        d.lines[k].clear();
    std::vector<std::string> q;
    for (auto& s : d.names)
      q.push_back(render(c, s));
    std::size_t other = (col + 1) % n;
    q[col]            = q[other];
    d.lines.insert(d.lines.begin() + static_cast<long>(d.data_line[0]), d.mark + join(c, q));
    for (auto& x : d.data_line)
      ++x;
    break;
  }
  case 3: {
    what = "unknown type";
    d.lines.insert(d.lines.begin(), d.mark + " Column: " + c.pick<std::string>({"a", "\"b c\""}) + " " + c.pick<std::string>({"dbl", "[string]", "Int", "uint", "[]", "float64"}));
    for (auto& x : d.data_line)
      ++x;
    break;
  }
  case 4:
    what = "no data";
    d.lines.resize(d.data_line[0]);
    break;
  default:
    what        = "wrong number of names or types";
    wrong_types = true;
  }
  if (how == 0 || how == 1)
    d.lines[d.data_line[row]] = join(c, cells);
  std::string s = text(c, d);
  c.describe([&](std::ostream& o) { o << what << "\n" << s; });
  c.nontrivial();
  std::istringstream in(s);
  AsciiReader        r(in);
  if (wrong_types) {
    r.setCommentIndicator(d.mark);
    std::size_t m = c.b() ? n + 1 : n - 1;
    if (m == 0)
      m = 2;
    if (c.b()) {
      std::vector<std::string> q;
      for (std::size_t k = 0; k < m; ++k)
        q.push_back("n" + std::to_string(k));
      r.fixColumnNames(q);
      CHECK_THROWS(r.fixColumnTypes(std::vector<std::type_index>(m + 1, typeid(double))), Elements::Exception, "different number of names and types");
    } else {
      r.fixColumnTypes(std::vector<std::type_index>(m, typeid(std::string)));
    }
    CHECK_THROWS(r.getInfo(), Elements::Exception, what);
    return;
  }
  prepare(c, d, r);
  if (how == 4)
    CHECK(!r.hasMoreRows() && r.rowsLeft() == 0, "rows where there are none");
  CHECK_THROWS(r.read(), Elements::Exception, what);
}

// the names given by the user
PBT_TEST(fixed_names, pbt::cases(3000, 60000)) {
  std::istringstream       in("1 2\n");
  AsciiReader              r(in);
  Profile                  p;
  std::string              s = tables::text(c, p, 4);
  std::vector<std::string> q{"a", s};
  switch (c.draw(3)) {
  case 0: q[1] = "a"; break;
  case 1: q[1] = ""; break;
  default: q[1].insert(c.n(0, s.size()), 1, c.pick({'\n', '\r', '\v', '\f'}));
  }
  c.nontrivial();
  c.describe([&](std::ostream& o) { o << "names a and '" << q[1] << "'"; });
  CHECK_THROWS(r.fixColumnNames(q), Elements::Exception, "bad name accepted");
}

// anything at all: an exception or a table that agrees with itself
PBT_TEST(any_text, pbt::cases(20000, 600000)) {
  static const std::vector<std::string> tokens{"#", "# ", "\n", "\n", " ", "\t", "1", "-2", "3.5", "\"", "\"a b\"", "Column:", "Column: ", "x", "y", "double", "int",
                                               "[int]", "[double+]", "(", ")", "(m)", "(m s)", "-", "- text", "<2>1,2", "<", ">", ",", "<-1,-1>1", "\\", "\r\n", "\"\"", "a", "true", "\x80"};
  std::string s;
  std::size_t n = c.len(0, 40);
  for (std::size_t k = 0; k < n; ++k)
    s += c.pick(tokens);
  c.describe([&](std::ostream& o) { o << "text\n" << s; });
  std::istringstream in(s);
  AsciiReader        r(in);
  if (c.b(1, 3))
    r.fixColumnTypes(std::vector<std::type_index>(c.n(1, 3), typeOf(static_cast<int>(c.draw(KINDS)))));
  bool        more = r.hasMoreRows();
  std::size_t left = r.rowsLeft();
  CHECK(more == (left > 0), "hasMoreRows and rowsLeft disagree");
  r.getComment();
  try {
    Tab t = r.read();
    c.nontrivial();
    CHECK(t.size() == left, t.size() << " rows instead of " << left);
    for (auto& row : t)
      for (auto& x : row)
        show(x);
    CHECK(!r.hasMoreRows() && r.rowsLeft() == 0, "rows left");
  } catch (const Elements::Exception&) {
  }
}

}  // namespace
