// C33: from the options of a program to the catalog of its file
#include "Configuration/CatalogConfig.h"
#include "Configuration/ConfigManager.h"
#include "Configuration/PdfCatalogConfig.h"
#include "Configuration/PhotometricBandMappingConfig.h"
#include "Configuration/PhotometryCatalogConfig.h"
#include "Configuration/SpecZCatalogConfig.h"
#include "SourceCatalog/SourceAttributes/Photometry.h"
#include "SourceCatalog/SourceAttributes/SpectroscopicRedshift.h"
#include "Table/AsciiWriter.h"
#include "Table/FitsWriter.h"
#include "common/photometry.h"
#include "common/tables.h"
#include <fstream>

using namespace Euclid::Configuration;
namespace sc = Euclid::SourceCatalog;
namespace po = boost::program_options;
namespace fs = boost::filesystem;
using pbt::Case;
using photometry::Band;
using photometry::Flags;
using photometry::Out;
using tables::Cell;
using tables::ColumnInfo;
using tables::Row;
using tables::Tab;
using Id = sc::Source::id_type;

namespace {

std::string base_dir;  // of the current case
bool        with_pdf, with_mapping;
std::string early;     // what could be asked too early

template <typename F>
bool refuses(F f) {
  try {
    f();
  } catch (const Elements::Exception&) {
    return true;
  }
  return false;
}

// Sets the directory of the others, and asks them for what they do not know yet
struct Helper : public Configuration {
  explicit Helper(long id) : Configuration(id) {
    declareDependency<CatalogConfig>();
    if (with_mapping)
      declareDependency<PhotometricBandMappingConfig>();
    if (with_pdf)
      declareDependency<PdfCatalogConfig<double>>();
  }
  void preInitialize(const UserValues&) override {
    auto& cat = getDependency<CatalogConfig>();
    if (!base_dir.empty())
      cat.setBaseDir(base_dir);
    auto ask = [](const char* what, bool refused) { early += refused ? "" : std::string(what) + " "; };
    ask("getColumnInfo", refuses([&] { cat.getColumnInfo(); }));
    ask("getFilename", refuses([&] { cat.getFilename(); }));
    ask("getTableReader", refuses([&] { cat.getTableReader(); }));
    ask("readAsTable", refuses([&] { cat.readAsTable(); }));
    ask("readAsCatalog", refuses([&] { cat.readAsCatalog(); }));
    ask("getTableToCatalogConverter", refuses([&] { cat.getTableToCatalogConverter(); }));
    if (with_mapping) {
      auto& map = getDependency<PhotometricBandMappingConfig>();
      if (!base_dir.empty())
        map.setBaseDir(base_dir);
      ask("getPhotometricBandMapping", refuses([&] { map.getPhotometricBandMapping(); }));
      ask("getUpperLimitThresholdMapping", refuses([&] { map.getUpperLimitThresholdMapping(); }));
      ask("getConvertFromMagMapping", refuses([&] { map.getConvertFromMagMapping(); }));
    }
    if (with_pdf)
      getDependency<PdfCatalogConfig<double>>().addPdfColumn("p", "PDF", {0., 0.5, 1.});
  }
};

long next_id = 1000;

// While it lives the current directory is another one
struct InDirectory {
  fs::path back;
  explicit InDirectory(const fs::path& dir) : back(fs::current_path()) { fs::current_path(dir); }
  ~InDirectory() {
    boost::system::error_code e;
    fs::current_path(back, e);
  }
};

std::string show(const Id& id) { return id.which() == 0 ? pbt::str(boost::get<std::int64_t>(id)) : "'" + boost::get<std::string>(id) + "'"; }

}  // namespace

PBT_TEST(catalog_of_options, pbt::cases(6000, 300000)) {
  // the table
  std::size_t rows = c.len(1, 7), nb = c.n(1, 4);
  int         id_kind = static_cast<int>(c.n(0, 2));  // long, int, string
  bool        fits = c.b(), photo = c.b(3, 4), specz = c.b(2, 3);
  with_mapping = photo;
  with_pdf     = c.b(1, 4);
  bool  id_by_name = false, id_by_index = false;
  int   zerr = static_cast<int>(c.n(0, 2));  // none, by name, by index
  Flags flags;
  flags.missing      = c.b();
  flags.upper        = c.b();
  flags.missing_flag = flags.missing ? c.pick({-99., 0., -1.}) : -99.;
  bool upper_given   = c.b();
  flags.upper_flag   = upper_given ? c.pick({-99., -1., -50.}) : -99.;
  std::vector<Band> bands;
  std::vector<bool> give_n, give_mag;
  for (std::size_t j = 0; j < nb; ++j) {
    Band b{};
    b.name = c.pick({std::string("u"), std::string("sdss/g"), std::string("Euclid/VIS"), std::string("r-band")}) + std::to_string(j);
    give_mag.push_back(c.b(1, 3));
    give_n.push_back(give_mag.back() || c.b());
    b.n   = give_n.back() ? c.pick({1.f, 2.5f, 3.f, 5.f}) : 3.f;
    b.mag = give_mag.back() && c.b();
    bands.push_back(b);
  }
  std::string              id_name = c.pick({std::string("ID"), std::string("SOURCE"), std::string("Obj_Id")});
  std::vector<std::string> cols{id_name, "Z", "ZE", "PDF", "extra"};
  for (std::size_t j = 0; j < nb; ++j) {
    cols.push_back("F" + std::to_string(j));
    cols.push_back("E" + std::to_string(j));
  }
  c.shuffle(cols);
  auto index = [&](const std::string& n) { return static_cast<int>(std::find(cols.begin(), cols.end(), n) - cols.begin()) + 1; };
  std::vector<tables::ColumnDescription> descs;
  for (auto& n : cols) {
    std::type_index t[] = {typeid(std::int64_t), typeid(std::int32_t), typeid(std::string)};
    descs.push_back(tables::ColumnDescription(n, n == id_name ? t[id_kind] : n == "PDF" ? std::type_index(typeid(std::vector<double>)) : std::type_index(typeid(double))));
  }
  auto info = std::make_shared<ColumnInfo>(descs);
  struct R {
    Id                  id;
    double              z, ze;
    std::vector<double> pdf;
    std::vector<Band>   bands;
  };
  std::vector<R>   model;
  std::vector<Row> table;
  for (std::size_t k = 0; k < rows; ++k) {
    R r;
    r.id = id_kind < 2 ? Id(static_cast<std::int64_t>(k) * c.i(1, 1) + 10) : Id("src" + std::to_string(k));
    r.z  = static_cast<double>(c.i(0, 48)) / 8;
    r.ze = static_cast<double>(c.i(0, 8)) / 8;
    for (int j = 0; j < 3; ++j)
      r.pdf.push_back(static_cast<double>(c.i(0, 16)) / 8);
    for (auto b : bands) {
      b.flux = b.mag ? static_cast<double>(c.i(80, 240)) / 8 : static_cast<double>(c.i(1, 3999)) / 8;
      b.err  = static_cast<double>(c.i(1, 80)) / 8;
      switch (c.n(0, 5)) {
      case 0:
        if (flags.missing)
          b.flux = flags.missing_flag;
        break;
      case 1:
        if (flags.upper)
          b.err = c.b() ? flags.upper_flag : -b.err;
        break;
      default:;
      }
      r.bands.push_back(b);
    }
    model.push_back(r);
    std::vector<Cell> cells;
    for (auto& n : cols)
      if (n == id_name)
        cells.push_back(id_kind == 0 ? Cell(boost::get<std::int64_t>(r.id)) : id_kind == 1 ? Cell(static_cast<std::int32_t>(boost::get<std::int64_t>(r.id))) : Cell(boost::get<std::string>(r.id)));
      else if (n == "Z" || n == "ZE" || n == "extra")
        cells.push_back(n == "Z" ? r.z : n == "ZE" ? r.ze : 1.5);
      else if (n == "PDF")
        cells.push_back(r.pdf);
      else
        cells.push_back(n[0] == 'F' ? r.bands[std::stoul(n.substr(1))].flux : r.bands[std::stoul(n.substr(1))].err);
    table.push_back(Row(cells, info));
  }
  // its files
  fs::path dir = fs::path(pbt::scratchDir()) / "config";
  fs::remove_all(dir);
  fs::create_directories(dir / "sub");
  // the current directory has other files of the same names, which are not meant
  fs::path elsewhere = fs::path(pbt::scratchDir()) / "elsewhere";
  fs::remove_all(elsewhere);
  fs::create_directories(elsewhere / "sub");
  bool decoy = c.b(1, 3);
  if (decoy)
    for (std::string n : {"catalog.dat", "catalog.fits", "cat", "sub/catalog.dat", "sub/catalog.fits", "sub/cat", "nothing", "map", "filter_mapping.txt"})
      std::ofstream((elsewhere / n).string()) << "# ID Z\n# long double\n\n1 2.5\n";
  bool        sub  = c.b();
  std::string name = std::string(sub ? "sub/" : "") + c.pick({std::string("catalog.dat"), std::string("catalog.fits"), std::string("cat")});
  Tab         tab(table);
  if (fits)
    Euclid::Table::FitsWriter((dir / name).string(), true).addData(tab);
  else
    Euclid::Table::AsciiWriter((dir / name).string()).addData(tab);
  std::vector<std::size_t> keep;
  std::vector<std::string> excluded;
  for (std::size_t j = 0; j < nb; ++j)
    if (c.b(1, 5))
      excluded.push_back(bands[j].name);
    else
      keep.push_back(j);
  // what goes wrong
  enum Fault { NONE, NO_FILE, DIRECTORY, FORMAT, ID_BOTH, ID_ZERO, ID_RANGE, ID_NAME, ID_DEFAULT, Z_NONE, Z_BOTH, Z_RANGE, Z_ZERO, Z_NAME, ZE_BOTH, ZE_NAME, ZE_RANGE, MAP_NONE, MAP_DIR, MAP_SHORT, MAP_LONG, MAP_NUMBER, MAP_FLAG, MAP_EXCLUDE, MAP_COLUMN, LAST };
  int fault = c.b(1, 3) ? static_cast<int>(c.n(1, LAST - 1)) : NONE;
  if ((fault >= Z_NONE && fault <= ZE_RANGE && !specz) || (fault >= MAP_NONE && fault <= MAP_COLUMN && !photo) || (fault == ID_DEFAULT && id_name == "ID") || (fault == MAP_COLUMN && keep.empty()))
    fault = NONE;
  // options
  std::vector<std::string> args;
  bool                     relative = c.b();
  base_dir                          = relative ? dir.string() : "";
  args.push_back("--input-catalog-file=" + (relative ? "" : dir.string() + "/") + (fault == NO_FILE ? "nothing" : fault == DIRECTORY ? "sub" : name));
  if (fault == FORMAT)
    args.push_back("--input-catalog-format=" + c.pick({std::string("fits"), std::string("CSV"), std::string("")}));
  else if (c.b())
    args.push_back(std::string("--input-catalog-format=") + (c.b() ? "AUTO" : fits ? "FITS" : "ASCII"));
  if (fault == ID_NAME)
    args.push_back("--source-id-column-name=nothing");
  else if (fault == ID_ZERO)
    args.push_back("--source-id-column-index=" + c.pick({std::string("0"), std::string("-1"), std::string("-7")}));
  else if (fault == ID_RANGE)
    args.push_back("--source-id-column-index=" + std::to_string(cols.size() + 1 + c.n(0, 3)));
  else if (fault == ID_BOTH) {
    args.push_back("--source-id-column-name=" + id_name);
    args.push_back("--source-id-column-index=" + std::to_string(index(id_name)));
  } else if (fault != ID_DEFAULT) {
    if (id_name != "ID" || c.b())
      (c.b() ? id_by_name : id_by_index) = true;
    if (id_by_name)
      args.push_back("--source-id-column-name=" + id_name);
    if (id_by_index)
      args.push_back("--source-id-column-index=" + std::to_string(index(id_name)));
  }
  if (specz) {
    bool by_name = fault == Z_BOTH || (fault != Z_NONE && fault != Z_RANGE && fault != Z_ZERO && c.b()) || fault == Z_NAME;
    if (by_name)
      args.push_back(std::string("--spec-z-column-name=") + (fault == Z_NAME ? "nothing" : "Z"));
    if (fault == Z_BOTH || (fault != Z_NONE && !by_name))
      args.push_back("--spec-z-column-index=" + std::to_string(fault == Z_RANGE ? static_cast<int>(cols.size()) + 1 : fault == Z_ZERO ? 0 : index("Z")));
    if (fault == ZE_NAME || fault == ZE_RANGE || fault == ZE_BOTH)
      zerr = fault == ZE_RANGE ? 2 : 1;
    if (zerr == 1)
      args.push_back(std::string("--spec-z-err-column-name=") + (fault == ZE_NAME ? "nothing" : "ZE"));
    if (zerr == 2 || fault == ZE_BOTH)
      args.push_back("--spec-z-err-column-index=" + std::to_string(fault == ZE_RANGE ? static_cast<int>(cols.size()) + 1 : index("ZE")));
  }
  if (photo) {
    std::string map_name = c.b() ? "filter_mapping.txt" : "map";
    if (!relative || map_name != "filter_mapping.txt" || c.b() || fault == MAP_NONE || fault == MAP_DIR)
      args.push_back("--filter-mapping-file=" + (relative ? "" : dir.string() + "/") + (fault == MAP_NONE ? "nothing" : fault == MAP_DIR ? "sub" : map_name));
    std::ofstream out((dir / map_name).string());
    std::size_t   bad = keep.empty() ? c.n(0, nb - 1) : keep[c.n(0, keep.size() - 1)];
    for (std::size_t j = 0; j < nb; ++j) {
      if (c.b(1, 5))
        out << (c.b() ? "# a comment\n" : "   #F E\n");
      auto gap = [&] { return c.pick({std::string(" "), std::string("\t"), std::string("   ")}); };
      out << (c.b(1, 5) ? "  " : "") << bands[j].name << gap() << "F" << (j == bad && fault == MAP_COLUMN ? "x" : "") << j;
      if (!(j == bad && fault == MAP_SHORT)) {
        out << gap() << "E" << j;
        if (give_n[j] || (j == bad && (fault == MAP_LONG || fault == MAP_NUMBER))) {
          if (j == bad && fault == MAP_NUMBER)
            out << gap() << c.pick({"many", "3x", "1,5", "2-", "1.5.2"});
          else
            out << gap() << bands[j].n;
        }
        if (j == bad && fault == MAP_FLAG)
          out << (give_n[j] ? gap() : gap() + "3" + gap()) << c.pick({"yes", "1x", "0.5", "true", "1,0"});
        else if (give_mag[j] || (j == bad && fault == MAP_LONG))
          out << gap() << (bands[j].mag ? 1 : 0);
        if (j == bad && fault == MAP_LONG)
          out << gap() << "0";
      }
      out << (c.b(1, 5) ? "  " : "") << (j + 1 < nb || c.b() ? "\n" : "");
    }
    out.close();
    auto ex = excluded;
    if (fault == MAP_EXCLUDE)
      ex.push_back(c.pick({std::string("nothing"), bands[0].name + "0", bands[0].name.substr(0, 1)}));
    c.shuffle(ex);
    for (auto& e : ex)
      args.push_back("--exclude-filter=" + e);
    if (flags.missing)
      args.push_back("--missing-photometry-flag=" + pbt::str(flags.missing_flag));
    if (flags.upper || c.b())
      args.push_back(std::string("--enable-upper-limit=") + (flags.upper ? "YES" : "NO"));
    if (upper_given)
      args.push_back("--upper-limit-use-threshod-flag=" + pbt::str(flags.upper_flag));
  }
  c.shuffle(args);
  std::unique_ptr<InDirectory> in_directory(decoy ? new InDirectory(elsewhere) : nullptr);
  c.label("decoys in the current directory", decoy && relative);
  c.describe([&](std::ostream& o) {
    o << (decoy ? "with decoys in the current directory, " : "") << rows << " rows, columns:";
    for (auto& n : cols)
      o << " " << n;
    o << (fits ? " FITS " : " ASCII ") << (photo ? "photometry " : "") << (specz ? "redshift " : "") << (with_pdf ? "pdf " : "") << "fault " << fault << " excluded " << excluded.size();
    for (auto& a : args)
      o << " " << a;
  });
  c.nontrivial(fault == NONE && rows > 1 && (photo || specz));
  c.label("fault", fault != NONE);
  // the program
  early.clear();
  long  id = next_id++;
  auto& m  = ConfigManager::getInstance(id);
  {
    std::vector<int> order{0, 1, 2, 3};
    c.shuffle(order);
    for (int o : order)
      switch (o) {
      case 0: m.registerConfiguration<Helper>(); break;
      case 1:
        if (photo)
          m.registerConfiguration<PhotometryCatalogConfig>();
        break;
      case 2:
        if (specz)
          m.registerConfiguration<SpecZCatalogConfig>();
        break;
      default: m.registerConfiguration<CatalogConfig>();
      }
  }
  auto run = [&] {
    auto                     desc = m.closeRegistration();
    std::vector<const char*> argv{"program"};
    for (auto& a : args)
      argv.push_back(a.c_str());
    po::variables_map vm;
    po::store(po::parse_command_line(static_cast<int>(argv.size()), argv.data(), desc), vm);
    po::notify(vm);
    std::map<std::string, po::variable_value> values;
    for (auto& v : vm)
      values[v.first] = v.second;
    m.initialize(values);
  };
  if (fault != NONE) {
    bool refused = false;
    try {
      run();
      m.getConfiguration<CatalogConfig>().readAsCatalog();
    } catch (const Elements::Exception&) {
      refused = true;
    } catch (const std::exception&) {
      refused = fault == MAP_NUMBER || fault == MAP_FLAG || fault == FORMAT;
    }
    CHECK(refused, "the options are accepted");
    return;
  }
  run();
  CHECK(early.empty(), "before the initialization these are allowed: " << early);
  auto& cat = m.getConfiguration<CatalogConfig>();
  CHECK(cat.getFilename() == dir / name, "the file is " << cat.getFilename());
  CHECK(cat.getIdColumn() == id_name, "the id column is " << cat.getIdColumn());
  CHECK(cat.getColumnInfo()->size() == cols.size(), "there are " << cat.getColumnInfo()->size() << " columns");
  for (std::size_t j = 0; j < cols.size(); ++j)
    CHECK(cat.getColumnInfo()->getDescription(j).name == cols[j], "column " << j << " is " << cat.getColumnInfo()->getDescription(j).name);
  CHECK(refuses([&] { cat.setBaseDir("/nothing"); }), "the base directory can be changed after the initialization");
  CHECK(refuses([&] { cat.addAttributeHandler(nullptr); }), "attributes can be added after the initialization");
  if (with_pdf)
    CHECK(refuses([&] { m.getConfiguration<PdfCatalogConfig<double>>().addPdfColumn("q", "PDF", {1., 2., 3.}); }), "PDFs can be added after the initialization");
  if (photo) {
    auto& map = m.getConfiguration<PhotometricBandMappingConfig>();
    CHECK(refuses([&] { map.setBaseDir("/nothing"); }), "the base directory can be changed after the initialization");
    auto &bm = map.getPhotometricBandMapping();
    auto &th = map.getUpperLimitThresholdMapping();
    auto &mm = map.getConvertFromMagMapping();
    CHECK(bm.size() == keep.size() && th.size() == keep.size() && mm.size() == keep.size(), "there are " << bm.size() << ", " << th.size() << ", " << mm.size() << " filters instead of " << keep.size());
    for (std::size_t q = 0; q < keep.size(); ++q) {
      auto  num = std::to_string(keep[q]);
      auto& b   = bands[keep[q]];
      CHECK(bm[q].first == b.name && bm[q].second.first == "F" + num && bm[q].second.second == "E" + num, "filter " << q << " is " << bm[q].first << " " << bm[q].second.first << " " << bm[q].second.second);
      CHECK(th[q].first == b.name && th[q].second == b.n, "the threshold of filter " << q << " is " << th[q].first << " " << th[q].second);
      CHECK(mm[q].first == b.name && mm[q].second == b.mag, "filter " << q << " is in magnitudes: " << mm[q].second);
    }
    auto& pc = m.getConfiguration<PhotometryCatalogConfig>();
    CHECK(pc.isMissingPhotometryEnabled() == flags.missing && pc.isUpperLimitEnabled() == flags.upper, "missing photometry: " << pc.isMissingPhotometryEnabled() << ", upper limits: " << pc.isUpperLimitEnabled());
  }
  // some magnitudes cannot be upper limits or are refused otherwise
  bool refused = false;
  for (auto& r : model)
    for (auto j : keep)
      refused = refused || (photo && photometry::parse(flags, r.bands[j]).refused);
  auto check = [&](const sc::Catalog& got, std::size_t first, std::size_t n) {
    CHECK(got.size() == n, "there are " << got.size() << " sources instead of " << n);
    std::size_t k = first;
    for (auto& s : got) {
      auto& r = model[k];
      CHECK(s.getId() == r.id, "source " << k << " is " << show(s.getId()) << " instead of " << show(r.id));
      auto z = s.getAttribute<sc::SpectroscopicRedshift>();
      CHECK((z != nullptr) == specz, "source " << k << " has a redshift: " << (z != nullptr));
      if (z)
        CHECK(z->getValue() == r.z && z->getError() == (zerr ? r.ze : 0), "the redshift of source " << k << " is " << z->getValue() << " +- " << z->getError() << " instead of " << r.z);
      auto p = s.getAttribute<sc::Pdf<double>>();
      CHECK((p != nullptr) == with_pdf, "source " << k << " has a PDF: " << (p != nullptr));
      if (p) {
        std::vector<double> v(p->getPdf("p").begin(), p->getPdf("p").end());
        CHECK(v == r.pdf, "source " << k << " has another PDF");
      }
      auto f = s.getAttribute<sc::Photometry>();
      CHECK((f != nullptr) == photo, "source " << k << " has a photometry: " << (f != nullptr));
      if (f) {
        CHECK(f->size() == keep.size(), "source " << k << " has " << f->size() << " filters");
        for (auto j : keep) {
          auto v = f->find(bands[j].name);
          CHECK(v != nullptr, "source " << k << " has no filter " << bands[j].name);
          auto w = photometry::parse(flags, r.bands[j]);
          CHECK(pbt::close(v->flux, w.flux, 1e-12) && pbt::close(v->error, w.err, 1e-12) && v->missing_photometry_flag == w.missing && v->upper_limit_flag == w.upper, "filter " << bands[j].name << " of source " << k << " is " << v->flux << " +- " << v->error << " instead of " << w.flux << " +- " << w.err);
        }
      }
      ++k;
    }
  };
  if (refused) {
    CHECK(refuses([&] { cat.readAsCatalog(); }), "photometry is accepted that has to be refused");
    return;
  }
  check(cat.readAsCatalog(), 0, rows);
  // in portions, and again
  auto        reader    = cat.getTableReader();
  auto        converter = cat.getTableToCatalogConverter();
  std::size_t at        = 0;
  while (reader->hasMoreRows()) {
    std::size_t n = c.n(1, 4);
    auto        t = reader->read(static_cast<long>(n));
    check(converter(t), at, std::min(n, rows - at));
    at += n;
  }
  CHECK(at >= rows, "only " << at << " rows can be read in portions");
  auto again = cat.readAsTable();
  CHECK(again.size() == rows, "the table has " << again.size() << " rows");
  check(converter(again), 0, rows);
}

// Catalogs of words written by hand, without a header: a file that does not begin like FITS is ASCII, whatever its words are
PBT_TEST(detected_format, pbt::cases(2000, 100000)) {
  std::size_t                           rows = c.n(1, 12), columns = c.n(1, 4);
  std::vector<std::vector<std::string>> words;
  for (std::size_t k = 0; k < rows; ++k) {
    std::vector<std::string> w;
    for (std::size_t j = 0; j < columns; ++j)
      w.push_back(c.b() ? c.pick({std::string("SIMPLE"), std::string("SIMPLE="), std::string("="), std::string("T"), std::string("XTENSION="), std::string("END"), std::string("BITPIX"), std::string("simple"), std::string("\x89HDF"), std::string("SIMPLEX")}) : pbt::str(c.i(-99, 99)));
    words.push_back(w);
  }
  std::size_t id = c.n(0, columns - 1);
  for (std::size_t k = 0; k < rows; ++k)  // told apart by their number
    words[k][id] += (c.b(1, 3) && k == 0 ? "" : "_" + std::to_string(k));
  std::string text;
  bool        header = c.b(1, 4), blank = c.b(1, 6);
  if (blank)
    text += "\n";
  if (header)
    text += c.pick({std::string("# SIMPLE  =                    T\n"), std::string("#SIMPLE\n\n"), "# " + std::string(100, 'x') + "\n"});
  for (std::size_t k = 0; k < rows; ++k) {
    text += c.b(1, 6) ? " " : "";
    for (std::size_t j = 0; j < columns; ++j)
      text += (j ? std::string(c.n(1, 3), ' ') : "") + words[k][j];
    text += k + 1 < rows || c.b() ? "\n" : "";
  }
  if (text.compare(0, 9, "SIMPLE  =") == 0)
    throw pbt::Discard();
  c.describe([&](std::ostream& o) { o << text; });
  c.nontrivial(text.compare(0, 6, "SIMPLE") == 0 || text.size() < 80);
  c.label("begins with SIMPLE", text.compare(0, 6, "SIMPLE") == 0);
  std::string file = pbt::scratchDir() + "/words.txt";
  std::ofstream(file, std::ios::binary) << text;
  long  number = next_id++;
  auto& m      = ConfigManager::getInstance(number);
  m.registerConfiguration<CatalogConfig>();
  auto                                      desc = m.closeRegistration();
  std::map<std::string, po::variable_value> values;
  values["input-catalog-file"].value()     = boost::any(file);
  values["input-catalog-format"].value()   = boost::any(std::string(c.b(3, 4) ? "AUTO" : "ASCII"));
  values["source-id-column-index"].value() = boost::any(static_cast<int>(id) + 1);
  m.initialize(values);
  auto catalog = m.getConfiguration<CatalogConfig>().readAsCatalog();
  CHECK(catalog.size() == rows, "there are " << catalog.size() << " sources instead of " << rows);
  std::size_t k = 0;
  for (auto& s : catalog) {
    CHECK(s.getId() == Id(words[k][id]), "source " << k << " is " << show(s.getId()) << " instead of '" << words[k][id] << "'");
    ++k;
  }
}
