// C27: catalogs of sources, and catalogs made of tables
#include "SourceCatalog/Catalog.h"
#include "SourceCatalog/CatalogFromTable.h"
#include "SourceCatalog/SourceAttributes/PdfFromRow.h"
#include "SourceCatalog/SourceAttributes/PhotometryAttributeFromRow.h"
#include "SourceCatalog/SourceAttributes/SpectroscopicRedshiftAttributeFromRow.h"
#include "SourceCatalog/SourceAttributes/TableRowAttribute.h"
#include "SourceCatalog/SourceAttributes/TableRowAttributeFromRow.h"
#include "common/tables.h"

using namespace Euclid::SourceCatalog;
using pbt::Case;
using tables::Cell;
using tables::ColumnInfo;
using tables::Row;
using tables::Tab;
using Id = Source::id_type;

namespace {

Id genId(Case& c, int kind) {
  if (kind == 0 || (kind == 2 && c.b()))
    return Id(c.b() ? c.i(-3, 12) : c.pick({std::numeric_limits<std::int64_t>::min(), std::numeric_limits<std::int64_t>::max(), std::int64_t(1) << 32, std::int64_t(3) + (std::int64_t(1) << 32), std::int64_t(-1) - (std::int64_t(1) << 32)}));
  return Id(c.pick({std::string("1"), std::string("2"), std::string("a"), std::string("A"), std::string("ab"), std::string("source-17"), std::string("03"), std::string("3"), std::string("3.0")}));
}

std::string show(const Id& id) { return id.which() == 0 ? pbt::str(boost::get<std::int64_t>(id)) : "'" + boost::get<std::string>(id) + "'"; }

struct Tag : public Attribute {
  explicit Tag(std::size_t v) : value(v) {}
  std::size_t value;
};
struct SubTag : public Tag {
  explicit SubTag(std::size_t v) : Tag(v) {}
};
struct Other : public Attribute {
  std::size_t value = 0;
};

}  // namespace

// The sources of a catalog, in their order, by their ids
PBT_TEST(catalog, pbt::cases(60000, 3000000)) {
  std::size_t         n    = c.size(0, 10, 2000, 300);
  int                 kind = static_cast<int>(c.n(0, 2));
  std::vector<Source> sources;
  std::vector<Id>     ids;
  std::vector<std::vector<std::shared_ptr<Attribute>>> attrs;
  bool                                                  twice = false;
  for (std::size_t k = 0; k < n; ++k) {
    Id id = genId(c, kind);
    if (c.b(14, 15))
      for (int t = 0; t < 30 && std::find(ids.begin(), ids.end(), id) != ids.end(); ++t)
        id = genId(c, kind);
    twice = twice || std::find(ids.begin(), ids.end(), id) != ids.end();
    std::vector<std::shared_ptr<Attribute>> a;
    for (std::size_t j = c.n(0, 3); j > 0; --j)
      switch (c.n(0, 3)) {
      case 0: a.push_back(std::make_shared<Tag>(c.n(0, 99))); break;
      case 1: a.push_back(std::make_shared<SubTag>(c.n(0, 99))); break;
      case 2: a.push_back(std::make_shared<Other>()); break;
      default: a.push_back(std::make_shared<Coordinates>(c.real(0, 360), c.real(-90, 90)));
      }
    ids.push_back(id);
    attrs.push_back(a);
    sources.push_back(Source(id, a));
  }
  c.describe([&](std::ostream& o) {
    for (auto& i : ids)
      o << show(i) << " ";
  });
  c.nontrivial(n > 2 && !twice);
  c.label("an id twice", twice);
  if (twice) {
    CHECK_THROWS(Catalog cat(sources), Elements::Exception, "two sources have the same id");
    return;
  }
  Catalog original(sources), copy(original);
  Catalog& cat = c.b() ? original : copy;
  CHECK(cat.size() == n && static_cast<std::size_t>(cat.end() - cat.begin()) == n, "the size is " << cat.size());
  auto same = [&](const Source& s, std::size_t k) {
    CHECK(s.getId() == ids[k], "source " << k << " has id " << show(s.getId()));
    auto first = [&](auto* t) {
      using T = typename std::remove_pointer<decltype(t)>::type;
      std::shared_ptr<T> want;
      for (auto& a : attrs[k])
        if (!want)
          want = std::dynamic_pointer_cast<T>(a);
      CHECK(s.getAttribute<T>() == want, "source " << k << " has another attribute of type " << typeid(T).name());
    };
    first(static_cast<Tag*>(nullptr));
    first(static_cast<SubTag*>(nullptr));
    first(static_cast<Other*>(nullptr));
    first(static_cast<Coordinates*>(nullptr));
    first(static_cast<SpectroscopicRedshift*>(nullptr));
  };
  // Another catalog with the same ids and other attributes, whose sources are still in use
  std::vector<Source>                  others;
  std::vector<std::shared_ptr<Tag>>    other_tags;
  std::vector<std::shared_ptr<Source>> in_use;
  bool                                 second = c.b();
  for (std::size_t i = 0; second && i < n; ++i) {
    std::vector<std::shared_ptr<Attribute>> a;
    if (c.b(3, 4))
      a.push_back(std::make_shared<Tag>(100 + i));
    other_tags.push_back(a.empty() ? nullptr : std::static_pointer_cast<Tag>(a[0]));
    others.push_back(Source(ids[n - 1 - i], a));
  }
  Catalog other(others);
  bool    hold = c.b(), first_other = c.b();
  auto    findOther = [&]() {
    for (std::size_t i = 0; second && i < n; ++i) {
      auto p = other.find(ids[n - 1 - i]);
      CHECK(p != nullptr, show(ids[n - 1 - i]) << " is not found in the second catalog");
      CHECK(p->getAttribute<Tag>() == other_tags[i] && p->getAttribute<Coordinates>() == nullptr, "source " << i << " of the second catalog has another attribute");
      if (hold)
        in_use.push_back(p);
    }
  };
  if (first_other)
    findOther();
  std::size_t k = 0;
  for (auto& s : cat)
    same(s, k++);
  for (k = 0; k < n; ++k) {
    auto p = cat.find(ids[k]);
    CHECK(p != nullptr, show(ids[k]) << " is not found");
    same(*p, k);
    if (hold)
      in_use.push_back(p);
  }
  if (!first_other)
    findOther();
  c.label("sources of two catalogs in use", second && hold && n > 0);
  for (int t = 0; t < 5; ++t) {
    Id   id  = genId(c, 2);
    auto pos = std::find(ids.begin(), ids.end(), id) - ids.begin();
    auto p   = cat.find(id);
    if (static_cast<std::size_t>(pos) == n)
      CHECK(p == nullptr, show(id) << " is found");
    else
      same(*p, static_cast<std::size_t>(pos));
  }
}

namespace {

bool sameCell(const Cell& a, const Cell& b) {
  if (a.which() != b.which())
    return false;
  if (a.which() == 3)
    return pbt::sameBits(boost::get<float>(a), boost::get<float>(b));
  if (a.which() == 4)
    return pbt::sameBits(boost::get<double>(a), boost::get<double>(b));
  return a == b;
}

}  // namespace

// A table with an id, a redshift with or without error, a PDF, a flux
PBT_TEST(from_table, pbt::cases(30000, 1500000)) {
  std::size_t id_kind = c.weighted({3, 3, 3, 1, 1, 1, 1});  // long int string double float bool vector
  std::size_t rows    = c.size(1, 8, 500, 300), bins = c.n(1, 4);
  bool        z_err = c.b(), z_float = c.b();
  std::vector<std::string> order{"ID", "Z", "ZERR", "PDF", "F", "E"};
  c.shuffle(order);
  auto desc = [&](const std::string& name) {
    if (name == "ID") {
      std::type_index t[] = {typeid(std::int64_t), typeid(std::int32_t), typeid(std::string), typeid(double), typeid(float), typeid(bool), typeid(std::vector<std::int64_t>)};
      return tables::ColumnDescription(name, t[id_kind]);
    }
    if (name == "PDF")
      return tables::ColumnDescription(name, typeid(std::vector<double>));
    if (name == "Z")
      return tables::ColumnDescription(name, z_float ? std::type_index(typeid(float)) : std::type_index(typeid(double)));
    return tables::ColumnDescription(name, typeid(double));
  };
  std::vector<tables::ColumnDescription> descs;
  for (auto& o : order)
    descs.push_back(desc(o));
  auto                info = std::make_shared<ColumnInfo>(descs);
  struct R {
    Id                  id;
    double              z, ze, f, e;
    std::vector<double> pdf;
  };
  std::vector<R>   model;
  std::vector<Row> table;
  bool             twice = false, bad_pdf = false;
  for (std::size_t k = 0; k < rows; ++k) {
    R r;
    int tries = 0;
    do {
      r.id = id_kind == 0 ? genId(c, 0) : id_kind == 1 ? Id(c.i(-3, 30)) : id_kind == 2 ? genId(c, 1) : Id(std::int64_t(0));
      if (id_kind > 2 || c.b(1, 20))
        break;
    } while (++tries < 30 && std::any_of(model.begin(), model.end(), [&](const R& o) { return o.id == r.id; }));
    twice = twice || std::any_of(model.begin(), model.end(), [&](const R& o) { return o.id == r.id; });
    r.z   = z_float ? static_cast<float>(c.real(-1, 9)) : c.real(-1, 9);
    r.ze  = c.real(0, 2);
    r.f   = c.real(-5, 50);
    r.e   = c.real(0.5, 5);
    std::size_t nb = c.b(1, 25) ? bins + 1 : bins;
    bad_pdf        = bad_pdf || nb != bins;
    for (std::size_t j = 0; j < nb; ++j)
      r.pdf.push_back(c.real(0, 1));
    model.push_back(r);
    std::vector<Cell> cells;
    for (auto& o : order)
      if (o == "ID")
        switch (id_kind) {
        case 0: cells.push_back(boost::get<std::int64_t>(r.id)); break;
        case 1: cells.push_back(static_cast<std::int32_t>(boost::get<std::int64_t>(r.id))); break;
        case 2: cells.push_back(boost::get<std::string>(r.id)); break;
        case 3: cells.push_back(static_cast<double>(k)); break;
        case 4: cells.push_back(static_cast<float>(k)); break;
        case 5: cells.push_back(true); break;
        default: cells.push_back(std::vector<std::int64_t>{1});
        }
      else if (o == "Z")
        cells.push_back(z_float ? Cell(static_cast<float>(r.z)) : Cell(r.z));
      else if (o == "ZERR")
        cells.push_back(r.ze);
      else if (o == "PDF")
        cells.push_back(r.pdf);
      else
        cells.push_back(o == "F" ? r.f : r.e);
    table.push_back(Row(cells, info));
  }
  Tab tab(table);
  c.describe([&](std::ostream& o) {
    o << "id kind " << id_kind << ", " << rows << " rows:";
    for (auto& r : model)
      o << " " << show(r.id);
  });
  std::vector<double> knots;
  for (std::size_t j = 0; j < bins; ++j)
    knots.push_back(static_cast<double>(j) * 0.5);
  std::vector<std::shared_ptr<AttributeFromRow>> from;
  if (z_err)
    from.push_back(std::make_shared<SpectroscopicRedshiftAttributeFromRow>(info, "Z", "ZERR"));
  else
    from.push_back(std::make_shared<SpectroscopicRedshiftAttributeFromRow>(info, "Z"));
  from.push_back(std::make_shared<TableRowAttributeFromRow>());
  from.push_back(std::make_shared<PdfFromRow<double>>(std::map<std::string, std::vector<double>>{{"p", knots}}, std::map<std::string, std::string>{{"p", "PDF"}}));
  using Mapping = std::vector<std::pair<std::string, std::pair<std::string, std::string>>>;
  from.push_back(std::make_shared<PhotometryAttributeFromRow>(info, Mapping{{"filter", {"F", "E"}}}, false, -99., false, std::vector<std::pair<std::string, float>>{{"filter", 3.f}}, -99.));
  c.shuffle(from);
  CHECK_THROWS(CatalogFromTable(info, "NO_ID", from), Elements::Exception, "there is no such column for the id");
  CHECK_THROWS(SpectroscopicRedshiftAttributeFromRow(info, "NOZ"), Elements::Exception, "there is no such column for the redshift");
  CHECK_THROWS(SpectroscopicRedshiftAttributeFromRow(info, "Z", "NOZ"), Elements::Exception, "there is no such column for the error");
  CatalogFromTable maker(info, "ID", from);
  c.nontrivial(rows > 1 && !twice && !bad_pdf && id_kind < 3);
  c.label("has to be refused", twice || bad_pdf || id_kind > 2);
  if (twice || bad_pdf || id_kind > 2) {
    CHECK_THROWS(maker.createCatalog(tab), Elements::Exception, (id_kind > 2 ? "ids of this type" : bad_pdf ? "a PDF of another size" : "an id twice"));
    return;
  }
  auto cat = maker.createCatalog(tab);
  CHECK(cat.size() == rows, "the catalog has " << cat.size() << " sources of " << rows << " rows");
  std::size_t k = 0;
  for (auto& s : cat) {
    auto& r = model[k];
    CHECK(s.getId() == r.id, "source " << k << " has id " << show(s.getId()));
    auto z = s.getAttribute<SpectroscopicRedshift>();
    CHECK(z && z->getValue() == r.z && z->getError() == (z_err ? r.ze : 0.), "source " << k << " has redshift " << (z ? z->getValue() : -1) << " +- " << (z ? z->getError() : -1));
    auto row = s.getAttribute<TableRowAttribute>();
    CHECK(row && row->getRow().size() == order.size(), "source " << k << " has no row");
    for (std::size_t j = 0; j < order.size(); ++j)
      CHECK(sameCell(row->getRow()[j], table[k][j]), "source " << k << " has another row");
    auto pdf = s.getAttribute<Pdf<double>>();
    CHECK(pdf && pdf->getPdf("p").size() == bins, "source " << k << " has no PDF");
    std::size_t j = 0;
    for (auto& v : pdf->getPdf("p")) {
      CHECK(v == r.pdf[j], "source " << k << " has " << v << " in its PDF");
      CHECK(pdf->getPdf("p").getAxis<0>()[j] == knots[j], "source " << k << " has other knots in its PDF");
      ++j;
    }
    auto phot = s.getAttribute<Photometry>();
    CHECK(phot && phot->size() == 1 && phot->find("filter") && phot->find("filter")->flux == r.f && phot->find("filter")->error == r.e, "source " << k << " has another photometry");
    auto found = cat.find(r.id);
    CHECK(found && found->getAttribute<SpectroscopicRedshift>() == z, show(r.id) << " is not found");
    ++k;
  }
}
