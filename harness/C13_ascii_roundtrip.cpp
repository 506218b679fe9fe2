// C13: a table written as ASCII text reads back as it was, in any portions
#include "Table/AsciiReader.h"
#include "Table/AsciiWriter.h"
#include "common/tables.h"
#include <boost/algorithm/string.hpp>
#include <fstream>
#include <sstream>

using namespace tables;
using Euclid::Table::AsciiReader;
using Euclid::Table::AsciiWriter;

namespace {

// six significant digits
const double DIGITS = 5.0001e-6;

// Where a stream says it is: a text far into a huge file
class FarBuf : public std::streambuf {
public:
  FarBuf(std::string s, std::streamoff base) : m_text(std::move(s)), m_base(base) { setg(&m_text[0], &m_text[0], &m_text[0] + m_text.size()); }

protected:
  pos_type seekoff(off_type off, std::ios_base::seekdir dir, std::ios_base::openmode) override {
    off_type p = dir == std::ios_base::beg ? off - m_base : dir == std::ios_base::cur ? (gptr() - eback()) + off : static_cast<off_type>(m_text.size()) + off;
    return go(p);
  }
  pos_type seekpos(pos_type pos, std::ios_base::openmode) override { return go(off_type(pos) - m_base); }

private:
  pos_type go(off_type p) {
    if (p < 0 || p > static_cast<off_type>(m_text.size()))
      return pos_type(off_type(-1));
    setg(eback(), eback() + p, egptr());
    return pos_type(p + m_base);
  }
  std::string    m_text;
  std::streamoff m_base;
};

struct Written {
  std::string text, comment_mark, comment;
  bool        info;
};

Written write(Case& c, const Generated& g, const std::string& mark, const std::string& file) {
  Written w;
  w.comment_mark = mark;
  w.info         = !c.b(1, 4);
  std::ostringstream out;
  std::unique_ptr<AsciiWriter> writer(file.empty() ? new AsciiWriter(out) : new AsciiWriter(file));
  if (mark != "#" || c.b())
    writer->setCommentIndicator(mark);
  if (!w.info || c.b())
    writer->showColumnInfo(w.info);
  std::size_t n = c.b() ? c.n(1, 3) : 0;
  Profile     p;
  p.forbidden = mark;
  for (std::size_t k = 0; k < n; ++k) {
    std::string message, one;
    std::size_t lines = c.n(1, 3);
    for (std::size_t j = 0; j < lines; ++j) {
      std::string l = words(c, p, 4, false);
      if (l.compare(0, 6, "Column") == 0)
        l[0] = 'K';
      message += (j ? "\n" : "") + l;
    }
    writer->addComment(message);
    w.comment += message + "\n";
  }
  boost::trim(w.comment);
  std::size_t at = 0;
  while (at < g.rows.size()) {
    std::size_t k = c.b() ? g.rows.size() - at : c.n(1, g.rows.size() - at);
    writer->addData(g.table(at, at + k));
    at += k;
    if (c.b(1, 4)) {
      CHECK_THROWS(writer->addComment("late"), Elements::Exception, "comment after data");
      CHECK_THROWS(writer->setCommentIndicator("%"), Elements::Exception, "indicator after data");
      CHECK_THROWS(writer->showColumnInfo(true), Elements::Exception, "column info after data");
    }
    if (c.b(1, 6)) {
      auto other = g.info->getDescription(0);
      other.name += "_other";
      std::vector<ColumnDescription> d;
      for (std::size_t i = 0; i < g.info->size(); ++i)
        d.push_back(i ? g.info->getDescription(i) : other);
      auto info = std::make_shared<ColumnInfo>(d);
      CHECK_THROWS(writer->addData(Tab({Row(g.rows[0], info)})), Elements::Exception, "other columns accepted");
    }
  }
  writer.reset();
  if (file.empty()) {
    w.text = out.str();
  } else {
    std::ifstream     in(file);
    std::stringstream s;
    s << in.rdbuf();
    w.text = s.str();
  }
  return w;
}

void checkInfo(const ColumnInfo& a, const ColumnInfo& b, const std::vector<std::string>& names, bool described, bool typed) {
  CHECK(a.size() == b.size(), b.size() << " columns instead of " << a.size());
  for (std::size_t i = 0; i < a.size(); ++i) {
    auto &x = a.getDescription(i), &y = b.getDescription(i);
    std::string name = names.empty() ? x.name : names[i];
    CHECK(y.name == name, "column " << i << " is named '" << y.name << "' instead of '" << name << "'");
    if (typed)
      CHECK(y.type == x.type, "type of column '" << name << "'");
    if (described) {
      CHECK(y.unit == x.unit, "unit of column '" << name << "': '" << y.unit << "' instead of '" << x.unit << "'");
      CHECK(y.description == x.description, "description of column '" << name << "': '" << y.description << "' instead of '" << x.description << "'");
    }
  }
}

PBT_TEST(round_trip, pbt::cases(16000, 300000)) {
  Profile p;
  p.forbidden = c.pick<std::string>({"#", "//", "%%", "!", "##"});
  Generated g = generate(c, p, 5, 12);
  c.describe([&](std::ostream& o) { show(o, g); });
  int         how  = static_cast<int>(c.weighted({6, 2, 1}));
  std::string file = how == 1 ? pbt::scratchDir() + "/table.txt" : "";
  Written     w    = write(c, g, p.forbidden, file);
  c.describe([&](std::ostream& o) { o << "written as\n" << w.text; });
  c.nontrivial(g.rows.size() > 1 && g.info->size() > 1);
  c.label("comment", !w.comment.empty());

  std::istringstream           in(w.text);
  FarBuf                       far(w.text, static_cast<std::streamoff>(c.pick({0x7ffffff0ll, 0xfffffff8ll, 5000000000ll})));
  std::istream                 far_in(&far);
  std::unique_ptr<AsciiReader> reader(how == 1 ? new AsciiReader(file) : how == 2 ? new AsciiReader(far_in) : new AsciiReader(in));
  c.label("beyond 2 GB", how == 2);
  if (p.forbidden != "#" || c.b())
    reader->setCommentIndicator(p.forbidden);
  bool                     typed = w.info;
  std::vector<std::string> names;
  if (c.b(1, 4))
    for (std::size_t i = 0; i < g.info->size(); ++i)
      names.push_back("renamed " + std::to_string(i));
  if (!names.empty() && c.b())
    reader->fixColumnNames(names), names = names;
  else
    names.clear();
  if (!w.info || c.b(1, 4)) {
    std::vector<std::type_index> t;
    for (auto& x : g.gens)
      t.push_back(typeOf(x.kind));
    reader->fixColumnTypes(t);
    typed = true;
  }
  if (!w.comment.empty() && c.b()) {
    auto got = reader->getComment();
    CHECK(got == w.comment, "the comment is '" << got << "' instead of '" << w.comment << "'");
  } else if (c.b()) {
    reader->getComment();
  }

  std::size_t at = 0, n = g.rows.size();
  std::size_t steps = c.n(1, 8);
  bool        all   = c.b();
  for (std::size_t s = 0; s < steps + (all ? 1 : 0); ++s) {
    switch (s == steps ? 5 : c.draw(5)) {
    case 0: CHECK(reader->hasMoreRows() == (at < n), "hasMoreRows with " << n - at << " rows left"); break;
    case 1: CHECK(reader->rowsLeft() == n - at, "rowsLeft is " << reader->rowsLeft() << " instead of " << n - at); break;
    case 2: checkInfo(*g.info, reader->getInfo(), names, w.info, typed); break;
    case 3: {
      std::size_t k = c.n(0, 3);
      reader->skip(static_cast<long>(k));
      at = std::min(n, at + k);
      break;
    }
    default: {
      long        k   = s == steps ? -1 : c.b(1, 6) ? -static_cast<long>(c.n(1, 3)) : static_cast<long>(c.n(1, 4));
      std::size_t exp = k < 0 ? n - at : std::min<std::size_t>(k, n - at);
      if (exp == 0) {
        CHECK_THROWS(reader->read(k), Elements::Exception, "reading past the end");
        break;
      }
      Tab t = reader->read(k);
      CHECK(t.size() == exp, "read(" << k << ") gives " << t.size() << " rows instead of " << exp);
      checkInfo(*g.info, *t.getColumnInfo(), names, w.info, typed);
      for (std::size_t r = 0; r < exp; ++r)
        for (std::size_t i = 0; i < g.info->size(); ++i)
          CHECK(same(g.rows[at + r][i], t[r][i], DIGITS), "row " << at + r << ", column " << i << ": " << show(t[r][i]) << " instead of " << show(g.rows[at + r][i]));
      at += exp;
      if (c.b(1, 4)) {
        CHECK_THROWS(reader->fixColumnNames({"late"}), Elements::Exception, "names fixed after reading");
        CHECK_THROWS(reader->fixColumnTypes({typeid(int)}), Elements::Exception, "types fixed after reading");
        CHECK_THROWS(reader->setCommentIndicator("%"), Elements::Exception, "indicator changed after reading");
      }
    }
    }
  }
}

}  // namespace
