// C12: a table written to FITS reads back as it was, in any portions
#include "Table/FitsReader.h"
#include "Table/FitsWriter.h"
#include "common/tables.h"
#include <CCfits/CCfits>

using namespace tables;
using Euclid::Table::FitsReader;
using Euclid::Table::FitsWriter;

namespace {

// what a column comes back as: FITS does not tell vectors and arrays of a single element from plain values
struct PlainVisitor : public boost::static_visitor<Cell> {
  Cell operator()(const std::vector<bool>& x) const { return Cell(x); }
  template <typename T>
  Cell operator()(const std::vector<T>& x) const { return x.size() == 1 ? Cell(static_cast<T>(x[0])) : Cell(x); }
  template <typename T>
  Cell operator()(const NdArray<T>& x) const { return x.size() == 1 ? Cell(static_cast<T>(*x.begin())) : Cell(x); }
  template <typename T>
  Cell operator()(const T& x) const { return Cell(x); }
};
Cell plain(const Cell& v) {
  return boost::apply_visitor(PlainVisitor(), v);
}

// the types of ASCII FITS tables: I is a 64 bits integer, E is a double
Cell ascii(const Cell& v) {
  if (auto* b = boost::get<bool>(&v))
    return Cell(static_cast<int64_t>(*b));
  if (auto* i = boost::get<int32_t>(&v))
    return Cell(static_cast<int64_t>(*i));
  if (auto* f = boost::get<float>(&v))
    return Cell(static_cast<double>(*f));
  return v;
}

PBT_TEST(round_trip, pbt::cases(10000, 200000)) {
  bool    binary = !c.b(1, 4);
  Profile p;
  p.spaces      = false;
  p.forbidden   = "'";
  p.fixed_shape = true;
  p.kinds       = binary ? ((1u << KINDS) - 1) & ~(1u << VBOOL) : (1u << (STRING + 1)) - 1;
  std::string file = pbt::scratchDir() + "/table.fits";
  std::remove(file.c_str());
  std::size_t            n_tables = c.n(1, 3);
  std::vector<Generated> tabs;
  bool                   shared   = c.b(1, 3);
  std::shared_ptr<CCfits::FITS> fits;
  if (shared)
    fits = std::make_shared<CCfits::FITS>("!" + file, CCfits::RWmode::Write);
  std::vector<std::string> comments;
  for (std::size_t k = 0; k < n_tables; ++k) {
    tabs.push_back(generate(c, p, 5, 10));
    auto& g = tabs.back();
    // all the vectors of a column have the length of the first one; single elements now and then
    for (std::size_t i = 0; i < g.gens.size(); ++i)
      if (g.gens[i].kind >= VINT && g.gens[i].kind <= VDOUBLE && c.b(1, 5)) {
        g.gens[i].length = 1;
        for (auto& r : g.rows)
          r[i] = cell(c, g.gens[i], p);
      } else if (g.gens[i].kind == STRING) {
        // the width of a column is that of its first portion, so the longest string comes first; one character now and then
        bool one = c.b(1, 4);
        std::size_t longest = 0;
        for (std::size_t r = 0; r < g.rows.size(); ++r) {
          auto s = boost::get<std::string>(g.rows[r][i]);
          if (one)
            s = s.substr(0, 1);
          if (one && static_cast<signed char>(s[0]) < 0)
            s = "z";
          g.rows[r][i] = s;
          if (s.size() > boost::get<std::string>(g.rows[longest][i]).size())
            longest = r;
        }
        std::swap(g.rows[0][i], g.rows[longest][i]);
      }
    c.describe([&](std::ostream& o) {
      o << (binary ? "binary" : "ascii") << (shared ? ", shared file object" : ", by name") << "\n";
      show(o, g);
    });
    std::string hdu = "table" + std::to_string(k);
    std::string comment = c.b() ? words(c, p, 4, true) : "";
    comments.push_back(comment);
    std::size_t at = 0;
    bool first = true, reopen = c.b(1, 3);
    std::unique_ptr<FitsWriter> w;
    while (at < g.rows.size()) {
      if (!w || reopen) {
        // a new writer goes on with the table of that name
        w.reset(shared ? new FitsWriter(fits) : new FitsWriter(file, false));
        w->setFormat(binary ? FitsWriter::Format::BINARY : FitsWriter::Format::ASCII).setHduName(hdu);
        if (first && !comment.empty())
          w->addComment(comment);
      }
      std::size_t m = c.b() ? g.rows.size() - at : c.n(1, g.rows.size() - at);
      w->addData(g.table(at, at + m));
      at += m;
      c.label("portions", !first);
      first = false;
      if (c.b(1, 4)) {
        CHECK_THROWS(w->addComment("late"), Elements::Exception, "comment after data");
        CHECK_THROWS(w->setHduName("late"), Elements::Exception, "name after data");
        CHECK_THROWS(w->setFormat(FitsWriter::Format::ASCII), Elements::Exception, "format after data");
      }
    }
  }
  fits.reset();
  c.nontrivial(tabs.size() > 1 || (tabs[0].rows.size() > 1 && tabs[0].info->size() > 1));

  for (std::size_t k : {n_tables - 1, static_cast<std::size_t>(0)}) {
    auto&                       g = tabs[k];
    std::unique_ptr<FitsReader> reader(c.b() ? new FitsReader(file, static_cast<int>(k) + 1) : new FitsReader(file, "table" + std::to_string(k)));
    std::vector<std::string>    names;
    if (c.b(1, 4)) {
      for (std::size_t i = 0; i < g.info->size(); ++i)
        names.push_back("renamed_" + std::to_string(i));
      reader->fixColumnNames(names);
    }
    auto expected = [&](std::size_t r, std::size_t i) { return binary ? plain(g.rows[r][i]) : ascii(g.rows[r][i]); };
    auto checkInfo = [&](const ColumnInfo& info) {
      CHECK(info.size() == g.info->size(), info.size() << " columns instead of " << g.info->size());
      for (std::size_t i = 0; i < info.size(); ++i) {
        auto &x = g.info->getDescription(i), &y = info.getDescription(i);
        CHECK(y.name == (names.empty() ? x.name : names[i]), "name of column " << i << ": '" << y.name << "'");
        CHECK(y.unit == x.unit, "unit of column " << i << ": '" << y.unit << "' instead of '" << x.unit << "'");
        CHECK(y.description == x.description, "description of column " << i << ": '" << y.description << "' instead of '" << x.description << "'");
        CHECK(y.type == std::type_index(expected(0, i).type()), "type of column " << i);
      }
    };
    if (!comments[k].empty())
      CHECK(reader->getComment() == comments[k], "comment '" << reader->getComment() << "' instead of '" << comments[k] << "'");
    std::size_t at = 0, n = g.rows.size();
    std::size_t steps = c.n(1, 8);
    bool        all   = c.b();
    for (std::size_t s = 0; s < steps + (all ? 1 : 0); ++s) {
      switch (s == steps ? 5 : c.draw(5)) {
      case 0: CHECK(reader->hasMoreRows() == (at < n), "hasMoreRows with " << n - at << " rows left"); break;
      case 1: CHECK(reader->rowsLeft() == n - at, "rowsLeft is " << reader->rowsLeft() << " instead of " << n - at); break;
      case 2: checkInfo(reader->getInfo()); break;
      case 3: {
        std::size_t m = c.n(0, 3);
        reader->skip(static_cast<long>(m));
        at = std::min(n, at + m);
        break;
      }
      default: {
        long        m   = s == steps ? -1 : c.b(1, 6) ? -static_cast<long>(c.n(1, 3)) : static_cast<long>(c.n(1, 4));
        std::size_t exp = m < 0 ? n - at : std::min<std::size_t>(m, n - at);
        if (exp == 0) {
          CHECK_THROWS(reader->read(m), Elements::Exception, "reading past the end");
          break;
        }
        Tab t = reader->read(m);
        CHECK(t.size() == exp, "read(" << m << ") gives " << t.size() << " rows instead of " << exp);
        checkInfo(*t.getColumnInfo());
        for (std::size_t r = 0; r < exp; ++r)
          for (std::size_t i = 0; i < g.info->size(); ++i)
            CHECK(same(expected(at + r, i), t[r][i], 0), "row " << at + r << ", column " << i << ": " << show(t[r][i]) << " instead of " << show(expected(at + r, i)));
        at += exp;
        if (c.b(1, 4))
          CHECK_THROWS(reader->fixColumnNames({"late"}), Elements::Exception, "names fixed after reading");
      }
      }
    }
  }
  std::remove(file.c_str());
}

// columns FITS tables cannot hold are refused
PBT_TEST(refused, pbt::cases(3000, 40000)) {
  Profile p;
  p.spaces      = false;
  p.fixed_shape = true;
  bool binary   = c.b();
  p.kinds       = binary ? 0x7f80 : 0x3f;
  Generated g   = generate(c, p, 4, 6);
  std::size_t i = c.n(0, g.gens.size() - 1);
  // binary: another length or shape in a later row; ascii: a vector column
  std::vector<ColumnDescription> d;
  for (std::size_t k = 0; k < g.info->size(); ++k)
    d.push_back(g.info->getDescription(k));
  if (binary) {
    while (g.rows.size() < 3)
      g.rows.push_back(g.rows[0]);
    auto        other = g.gens[i];
    std::size_t r = c.n(1, g.rows.size() - 1), q = c.n(1, g.rows.size() - 1);
    other.length += 1;
    other.shp.push_back(2);
    g.rows[r][i] = cell(c, other, p);
    if (q != r && c.b()) {
      // another row differs too, in the other direction; for arrays the number of elements is the same
      other = g.gens[i];
      if (other.length > 1) {
        other.length -= 1;
        g.rows[q][i] = cell(c, other, p);
        c.label("the total length is the one of equal rows");
      }
    }
    if (g.gens[i].kind >= NINT && c.b(1, 3)) {
      // same number of elements in another shape
      other = g.gens[i];
      if (other.shp.size() > 1 && other.shp.front() != other.shp.back()) {
        std::swap(other.shp.front(), other.shp.back());
        c.label("transposed shape");
      } else {
        other.shp.push_back(1);
        c.label("one more axis");
      }
      g.rows[r][i] = cell(c, other, p);
    }
  } else {
    g.gens[i].kind = static_cast<int>(c.n(VBOOL, NDOUBLE));
    d[i].type      = typeOf(g.gens[i].kind);
    for (auto& r : g.rows)
      r[i] = cell(c, g.gens[i], p);
  }
  g.info = std::make_shared<ColumnInfo>(d);
  c.describe([&](std::ostream& o) { show(o, g); });
  c.nontrivial();
  std::string file = pbt::scratchDir() + "/refused.fits";
  std::remove(file.c_str());
  FitsWriter w(file, true);
  w.setFormat(binary ? FitsWriter::Format::BINARY : FitsWriter::Format::ASCII).setHduName("t");
  CHECK_THROWS(w.addData(g.table(0, g.rows.size())), Elements::Exception, "a column FITS cannot hold is accepted");
  std::remove(file.c_str());
}

}  // namespace
