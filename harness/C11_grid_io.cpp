// C11: a grid, or a slice of one, survives being exported and imported, and unfolds to one table row per cell
#include "GridContainer/GridContainerToTable.h"
#include "GridContainer/serialize.h"
#include "XYDataset/serialize.h"
#include "common/pbt.h"
#include <boost/archive/text_iarchive.hpp>
#include <boost/archive/text_oarchive.hpp>
#include <sstream>

using namespace Euclid;
using namespace Euclid::GridContainer;
using Euclid::XYDataset::QualifiedName;
using pbt::Case;

// A cell without a default constructor
struct Sealed {
  explicit Sealed(double x) : value(x) {}
  double value;
  bool   operator==(const Sealed& o) const { return value == o.value; }
};
// A cell with a default constructor
struct Open {
  double              value = 0;
  std::vector<double> more;
  bool                operator==(const Open& o) const { return value == o.value && more == o.more; }
  template <typename Archive>
  void serialize(Archive& ar, const unsigned int) {
    ar& value;
    ar& more;
  }
};
namespace boost {
namespace serialization {
template <typename Archive>
void serialize(Archive&, Sealed&, const unsigned int) {}
template <typename Archive>
void save_construct_data(Archive& ar, const Sealed* p, const unsigned int) {
  double v = p->value;
  ar << v;
}
template <typename Archive>
void load_construct_data(Archive& ar, Sealed* p, const unsigned int) {
  double v;
  ar >> v;
  ::new (p) Sealed(v);
}
}  // namespace serialization
}  // namespace boost
namespace Euclid {
namespace GridContainer {
template <>
struct GridCellManagerTraits<std::vector<Sealed>> {
  typedef Sealed                        data_type;
  typedef std::vector<Sealed>::iterator iterator;
  static std::unique_ptr<std::vector<Sealed>> factory(size_t size) {
    return std::unique_ptr<std::vector<Sealed>>(new std::vector<Sealed>(size, Sealed(-1.)));
  }
  static size_t     size(const std::vector<Sealed>& v) { return v.size(); }
  static iterator   begin(std::vector<Sealed>& v) { return v.begin(); }
  static iterator   end(std::vector<Sealed>& v) { return v.end(); }
  static const bool enable_boost_serialize = true;
};
template <>
struct GridCellToTable<Open> {
  static void addColumnDescriptions(const Open& o, std::vector<Table::ColumnDescription>& columns) {
    columns.emplace_back("open_value", typeid(double));
    columns.emplace_back("open_more", typeid(std::vector<double>));
  }
  static void addCells(const Open& o, std::vector<Table::Row::cell_type>& row) {
    row.emplace_back(o.value);
    row.emplace_back(o.more);
  }
};
}  // namespace GridContainer
}  // namespace Euclid

namespace {

double number(Case& c) {
  switch (c.draw(6)) {
  case 0: return static_cast<double>(c.i(-9, 9));
  case 1: return 1e300 * c.unit();
  case 2: return 5e-324 * static_cast<double>(c.n(0, 9));
  case 3: return std::numeric_limits<double>::infinity();
  default: return (c.unit() - 0.5) * 1e3;
  }
}
template <typename T>
struct Gen;
template <>
struct Gen<double> {
  static double get(Case& c) { return number(c); }
  static bool   same(const Table::Row::cell_type& x, double v) { return boost::get<double>(x) == v; }
};
template <>
struct Gen<float> {
  static float get(Case& c) { return static_cast<float>(c.i(-1000000, 1000000)) / 3.f; }
  static bool  same(const Table::Row::cell_type& x, float v) { return boost::get<float>(x) == v; }
};
template <>
struct Gen<int> {
  static int  get(Case& c) { return c.b(1, 6) ? c.pick({std::numeric_limits<int>::min(), std::numeric_limits<int>::max()}) : static_cast<int>(c.i(-50, 50)); }
  static bool same(const Table::Row::cell_type& x, int v) { return boost::get<int>(x) == v; }
};
template <>
struct Gen<std::int64_t> {
  static std::int64_t get(Case& c) { return c.b() ? c.i(-9, 9) : static_cast<std::int64_t>(c.draw(0)); }
  static bool         same(const Table::Row::cell_type& x, std::int64_t v) { return boost::get<std::int64_t>(x) == v; }
};
template <>
struct Gen<std::int16_t> {
  static std::int16_t get(Case& c) { return static_cast<std::int16_t>(c.i(-32768, 32767)); }
};
template <>
struct Gen<std::string> {
  static std::string get(Case& c) {
    std::string s;
    std::size_t n = c.n(1, 8);
    for (std::size_t k = 0; k < n; ++k)
      s += "abcXYZ019_-. "[c.n(0, k == 0 || k + 1 == n ? 11 : 12)];
    return s;
  }
  static bool same(const Table::Row::cell_type& x, const std::string& v) { return boost::get<std::string>(x) == v; }
};
template <>
struct Gen<QualifiedName> {
  static QualifiedName get(Case& c) {
    std::vector<std::string> g(c.n(0, 3));
    for (auto& s : g)
      s = Gen<std::string>::get(c);
    return QualifiedName(g, Gen<std::string>::get(c));
  }
  static bool same(const Table::Row::cell_type& x, const QualifiedName& v) { return boost::get<std::string>(x) == v.qualifiedName(); }
};
template <>
struct Gen<Sealed> {
  static Sealed get(Case& c) { return Sealed(number(c)); }
};
template <>
struct Gen<Open> {
  static Open get(Case& c) {
    Open o;
    o.value = number(c);
    o.more.resize(c.n(0, 3));
    for (auto& v : o.more)
      v = number(c);
    return o;
  }
};

template <typename T>
std::vector<T> knots(Case& c, std::size_t lo, std::size_t hi) {
  std::vector<T> r;
  std::size_t    n = c.n(lo, hi);
  while (r.size() < n)
    r.push_back(Gen<T>::get(c));
  return r;
}

template <typename Cell, typename... Ax>
struct World {
  typedef Euclid::GridContainer::GridContainer<std::vector<Cell>, Ax...> Grid;
  static constexpr std::size_t                    N = sizeof...(Ax);
  using Seq = std::make_index_sequence<N>;

  // names that tell the axes apart
  template <std::size_t... I>
  static Grid make(Case& c, std::size_t lo, bool spaces, std::index_sequence<I...>) {
    std::string names[] = {(std::string(1, static_cast<char>('a' + I)) + (spaces && c.b(1, 3) ? " axis name" : c.b() ? "_x" : ""))...};
    Grid        g(GridAxis<Ax>(names[I], knots<Ax>(c, lo, N > 2 ? 4 : 6))...);
    for (auto& cell : g)
      cell = Gen<Cell>::get(c);
    return g;
  }
  static Grid make(Case& c, std::size_t lo = 1, bool spaces = true) { return make(c, lo, spaces, Seq()); }

  // the grid or a slice of it
  static std::unique_ptr<Grid> maybeSlice(Case& c, Grid& g) {
    std::unique_ptr<Grid> r;
    if (c.b(1, 3) && g.size() > 0) {
      c.nontrivial();
      c.label("slice");
      r.reset(new Grid(g.template fixAxisByIndex<N - 1>(c.n(0, g.template getAxis<N - 1>().size() - 1))));
      if (N > 1 && c.b())
        r.reset(new Grid(r->template fixAxisByIndex<0>(c.n(0, g.template getAxis<0>().size() - 1))));
    }
    return r;
  }

  template <std::size_t I>
  static void sameAxis(const Grid& a, const Grid& b, const char* what) {
    auto& x = a.template getAxis<I>();
    auto& y = b.template getAxis<I>();
    CHECK(x.name() == y.name(), what << ": axis " << I << " is named '" << y.name() << "' instead of '" << x.name() << "'");
    CHECK(x.size() == y.size(), what << ": axis " << I << " has " << y.size() << " knots instead of " << x.size());
    CHECK(std::equal(x.begin(), x.end(), y.begin()), what << ": knots of axis " << I);
  }
  template <std::size_t... I>
  static void same(const Grid& a, const Grid& b, const char* what, std::index_sequence<I...>) {
    int d[] = {(sameAxis<I>(a, b, what), 0)...};
    (void)d;
    CHECK(a.size() == b.size(), what << ": " << b.size() << " cells instead of " << a.size());
    auto        x = a.begin();
    auto        y = b.begin();
    std::size_t k = 0;
    for (; x != a.end(); ++x, ++y, ++k) {
      CHECK(y != b.end(), what << ": cells missing");
      CHECK(*x == *y, what << ": cell " << k);
    }
    CHECK(y == b.end() && k == a.size(), what << ": number of cells");
  }
  static void describe(Case& c, const Grid& g, const char* how) {
    c.describe([&](std::ostream& o) { o << how << ", " << g.size() << " cells, " << N << " axes, first '" << g.template getAxis<0>().name() << "' of " << g.template getAxis<0>().size(); });
  }

  static void archive(Case& c) {
    Grid        g  = make(c, c.b(1, 10) ? 0 : 1);
    auto        s  = maybeSlice(c, g);
    const Grid& w  = s ? *s : g;
    int         how = static_cast<int>(c.n(0, 4));
    describe(c, w, how == 0 ? "binary" : how == 1 ? "text archive" : how == 2 ? "binary archive" : how == 3 ? "binary, two in a stream" : "several in one archive");
    c.nontrivial(N > 1 && w.size() > 2);
    std::stringstream f;
    if (how == 0) {
      gridBinaryExport(f, w);
      same(w, gridBinaryImport<Grid>(f), "binary", Seq());
    } else if (how == 1) {
      // text archives do not read infinities back
      for (auto& cell : g)
        if (hasInf(cell))
          throw pbt::Discard();
      if (axesInf(w, Seq()))
        throw pbt::Discard();
      gridExport<boost::archive::text_oarchive>(f, w);
      same(w, gridImport<Grid, boost::archive::text_iarchive>(f), "text", Seq());
    } else if (how == 2) {
      gridExport<boost::archive::binary_oarchive>(f, w);
      same(w, gridImport<Grid, boost::archive::binary_iarchive>(f), "binary archive", Seq());
    } else if (how == 4) {
      // an archive of the user, with several grids
      std::vector<Grid> more;
      for (std::size_t k = c.n(1, 3); k > 0; --k)
        more.push_back(make(c, c.b(1, 10) ? 0 : 1));
      std::vector<const Grid*> saved{&w};
      for (auto& h : more)
        saved.push_back(&h);
      c.shuffle(saved);
      {
        boost::archive::binary_oarchive out{f};
        for (const Grid* h : saved)
          out << h;
      }
      boost::archive::binary_iarchive    in{f};
      std::vector<std::unique_ptr<Grid>> loaded;
      for (const Grid* h : saved) {
        Grid* ptr = nullptr;
        in >> ptr;
        loaded.emplace_back(ptr);
        same(*h, *ptr, "one of several in an archive", Seq());
      }
      for (std::size_t k = 0; k < saved.size(); ++k)
        same(*saved[k], *loaded[k], "one of several in an archive, after all have been read", Seq());
    } else {
      Grid h = make(c);
      gridBinaryExport(f, w);
      gridBinaryExport(f, h);
      same(w, gridBinaryImport<Grid>(f), "first of two", Seq());
      same(h, gridBinaryImport<Grid>(f), "second of two", Seq());
    }
  }
  template <typename T>
  static bool hasInf(const T&) { return false; }
  static bool hasInf(double d) { return std::isinf(d) || (d != 0 && std::abs(d) < 1e-300); }
  static bool hasInf(const Sealed& s) { return hasInf(s.value); }
  static bool hasInf(const Open& o) {
    bool r = hasInf(o.value);
    for (double d : o.more)
      r = r || hasInf(d);
    return r;
  }
  template <std::size_t... I>
  static bool axesInf(const Grid& g, std::index_sequence<I...>) {
    bool r   = false;
    int  d[] = {(std::for_each(g.template getAxis<I>().begin(), g.template getAxis<I>().end(), [&](const auto& k) { r = r || hasInf(k); }), 0)...};
    (void)d;
    return r;
  }

  static void fits(Case& c) {
    std::string file = pbt::scratchDir() + "/grid" + std::to_string(c.n(0, 3)) + ".fits";
    std::remove(file.c_str());
    std::vector<Grid> grids;
    std::size_t       n = c.n(1, 3);
    for (std::size_t k = 0; k < n; ++k)
      grids.push_back(make(c));
    std::vector<std::unique_ptr<Grid>> slices;
    for (std::size_t k = 0; k < n; ++k) {
      slices.push_back(maybeSlice(c, grids[k]));
      const Grid& w = slices[k] ? *slices[k] : grids[k];
      describe(c, w, "FITS");
      gridFitsExport(file, "hdu" + std::to_string(k), w);
      c.nontrivial(w.size() > 2 && k > 0);
    }
    for (std::size_t k = 0; k < n; ++k) {
      const Grid& w = slices[k] ? *slices[k] : grids[k];
      same(w, gridFitsImport<Grid>(file, static_cast<int>(1 + k * (N + 1))), "FITS", Seq());
    }
    std::remove(file.c_str());
  }

  template <std::size_t... I>
  static void table(Case& c, std::index_sequence<I...>) {
    Grid        g = make(c);
    auto        s = maybeSlice(c, g);
    const Grid& w = s ? *s : g;
    describe(c, w, "table");
    c.nontrivial(N > 1 && w.size() > 2);
    auto t = gridContainerToTable(w);
    CHECK(t.size() == w.size(), "the table has " << t.size() << " rows for " << w.size() << " cells");
    std::string names[] = {w.template getAxis<I>().name()...};
    for (auto& nm : names)
      std::replace(nm.begin(), nm.end(), ' ', '_');
    auto it = w.begin();
    for (std::size_t r = 0; r < t.size(); ++r, ++it) {
      bool ok[] = {Gen<Ax>::same(t[r][names[I]], it.template axisValue<I>())...};
      for (std::size_t a = 0; a < N; ++a)
        CHECK(ok[a], "row " << r << ", column of axis " << a);
      checkCell(t[r], *it, r);
      CHECK(t[r].size() == N + cellColumns(*it), "row " << r << " has " << t[r].size() << " columns");
    }
  }
  template <typename T>
  static std::size_t cellColumns(const T&) { return 1; }
  static std::size_t cellColumns(const Open&) { return 2; }
  template <typename T>
  static void checkCell(const Table::Row& r, const T& v, std::size_t row) { CHECK(Gen<T>::same(r["value"], v), "row " << row << ": value"); }
  static void checkCell(const Table::Row& r, const Open& v, std::size_t row) {
    CHECK(boost::get<double>(r["open_value"]) == v.value && boost::get<std::vector<double>>(r["open_more"]) == v.more, "row " << row << ": cells");
  }
  static void table(Case& c) { table(c, Seq()); }
};

PBT_TEST(archives, pbt::cases(6000, 120000)) {
  switch (c.draw(6)) {
  case 0: World<double, double>::archive(c); break;
  case 1: World<double, int, double>::archive(c); break;
  case 2: World<Sealed, double, std::string>::archive(c); break;
  case 3: World<Open, QualifiedName, double, int>::archive(c); break;
  case 4: World<float, QualifiedName, QualifiedName>::archive(c); break;
  default: World<Sealed, QualifiedName, std::int64_t, double, int>::archive(c);
  }
}
PBT_TEST(fits_files, pbt::cases(3000, 60000)) {
  switch (c.draw(4)) {
  case 0: World<double, double>::fits(c); break;
  case 1: World<float, int, double>::fits(c); break;
  case 2: World<std::int16_t, QualifiedName, double, std::string>::fits(c); break;
  default: World<std::int64_t, double, QualifiedName, int, double>::fits(c);
  }
}
PBT_TEST(to_table, pbt::cases(4000, 80000)) {
  switch (c.draw(4)) {
  case 0: World<double, double>::table(c); break;
  case 1: World<int, int, double>::table(c); break;
  case 2: World<Open, QualifiedName, double, std::string>::table(c); break;
  default: World<float, double, QualifiedName, int, std::int64_t>::table(c);
  }
}

}  // namespace
// Axes and grids longer than the counters of 8 and 16 bits; filled by arithmetic, so cheap
PBT_TEST(large, pbt::cases(24, 600)) {
  typedef World<double, int, double> W;
  std::size_t  n0 = c.pick({255, 256, 257, 32767, 32768, 65535, 65536, 65537, 70000, 1}), n1 = c.n(1, 3);
  bool         swap = c.b() || n0 == 1;
  if (n0 == 1)
    n1 = 66000;
  std::vector<int>    a;
  std::vector<double> b;
  double              step = c.pick({1., 0.1, 1e-9});
  for (std::size_t k = 0; k < (swap ? n1 : n0); ++k)
    a.push_back(static_cast<int>(k) * 3 - 1000);
  for (std::size_t k = 0; k < (swap ? n0 : n1); ++k)
    b.push_back(static_cast<double>(k) * step);
  W::Grid g(GridAxis<int>("a", a), GridAxis<double>("b", b));
  double  v = 0;
  for (auto& cell : g)
    cell = v += 0.25;
  int how = static_cast<int>(c.n(0, 4));
  W::describe(c, g, how == 0 ? "binary" : how == 1 ? "text archive" : how == 2 ? "table" : "FITS");
  c.nontrivial();
  std::stringstream f;
  if (how == 0) {
    gridBinaryExport(f, g);
    W::same(g, gridBinaryImport<W::Grid>(f), "binary", W::Seq());
  } else if (how == 1) {
    gridExport<boost::archive::text_oarchive>(f, g);
    W::same(g, gridImport<W::Grid, boost::archive::text_iarchive>(f), "text", W::Seq());
  } else if (how == 2) {
    auto t  = gridContainerToTable(g);
    auto it = g.begin();
    CHECK(t.size() == g.size(), "the table has " << t.size() << " rows for " << g.size() << " cells");
    for (std::size_t r = 0; r < t.size(); ++r, ++it)
      CHECK(boost::get<int>(t[r]["a"]) == it.axisValue<0>() && boost::get<double>(t[r]["b"]) == it.axisValue<1>() && boost::get<double>(t[r]["value"]) == *it, "row " << r);
  } else {
    std::string file = pbt::scratchDir() + "/large.fits";
    std::remove(file.c_str());
    gridFitsExport(file, "hdu", g);
    W::same(g, gridFitsImport<W::Grid>(file, 1), "FITS", W::Seq());
    std::remove(file.c_str());
  }
}
