// C28: photometry of a source, parsed from a table row
#include "SourceCatalog/PhotometryParsingException.h"
#include "SourceCatalog/SourceAttributes/Photometry.h"
#include "SourceCatalog/SourceAttributes/PhotometryAttributeFromRow.h"
#include "common/photometry.h"
#include "common/tables.h"

using namespace Euclid::SourceCatalog;
using pbt::Case;
using tables::Cell;
using tables::ColumnInfo;
using tables::Row;
using photometry::Band;
using photometry::Flags;
using photometry::Out;

namespace {
const double NaN = std::numeric_limits<double>::quiet_NaN(), INF = std::numeric_limits<double>::infinity();

Cell cell(int type, double v) {
  switch (type) {
  case 0: return v;
  case 1: return static_cast<float>(v);
  case 2: return static_cast<std::int32_t>(v);
  default: return static_cast<std::int64_t>(v);
  }
}

std::type_index typeOf(int t) {
  std::type_index l[] = {typeid(double), typeid(float), typeid(std::int32_t), typeid(std::int64_t)};
  return l[t];
}

double fit(int type, double v) {
  if (type == 1)
    return static_cast<float>(v);
  if (type > 1)
    return std::isfinite(v) ? std::trunc(v) : 7.;
  return v;
}

}  // namespace

PBT_TEST(parse_row, pbt::cases(100000, 5000000)) {
  Flags k;
  k.missing      = c.b();
  k.upper        = c.b();
  k.missing_flag = c.pick({-99., 0., 99., -1., -0.1});
  k.upper_flag   = c.pick({-99., -1., -98., 99., -0.1, -16777217.});
  // values that are almost a flag are none
  auto almost = [&](double flag) {
    double d = std::pow(10., static_cast<double>(c.i(-13, -5)));
    return flag * (c.b() ? 1 + d : 1 - d);
  };
  std::size_t       n = c.len(1, 5);
  std::vector<Band> bands;
  for (std::size_t j = 0; j < n; ++j) {
    Band b;
    b.name      = "filter" + std::to_string(j);
    b.flux_type = static_cast<int>(c.weighted({5, 1, 1, 1}));
    b.err_type  = static_cast<int>(c.weighted({5, 1, 1, 1}));
    b.mag       = c.b(1, 3);
    b.n         = c.pick({1.f, 3.f, 5.f, 0.5f});
    switch (c.weighted({6, 2, 1, 1, 1, 1, 1})) {
    case 6: b.flux = almost(k.missing_flag); break;
    case 0: b.flux = b.mag ? c.real(10, 35) : c.real(0.1, 1e4); break;
    case 1: b.flux = k.missing_flag; break;
    case 2: b.flux = NaN; break;
    case 3: b.flux = b.mag ? -INF : c.b() ? INF : -INF; break;
    case 4: b.flux = b.mag ? c.real(-5, 5) : c.real(-1e3, -0.1); break;
    default: b.flux = 0;
    }
    switch (c.weighted({6, 2, 1, 1, 1})) {
    case 4: b.err = almost(k.upper_flag); break;
    case 0: b.err = c.real(0.01, 10); break;
    case 1: b.err = k.upper_flag; break;
    case 2: b.err = -c.real(0.01, 10); break;
    default: b.err = 0;
    }
    b.flux = fit(b.flux_type, b.flux);
    b.err  = fit(b.err_type, b.err);
    bands.push_back(b);
  }
  // the columns in any order, with others between
  std::vector<std::pair<std::string, std::pair<int, double>>> cols;
  for (auto& b : bands) {
    cols.push_back({b.name + "_F", {b.flux_type, b.flux}});
    cols.push_back({b.name + "_E", {b.err_type, b.err}});
  }
  cols.push_back({"other", {0, 12.5}});
  c.shuffle(cols);
  std::vector<tables::ColumnDescription> descs;
  std::vector<Cell>                      cells;
  for (auto& col : cols) {
    descs.push_back(tables::ColumnDescription(col.first, typeOf(col.second.first)));
    cells.push_back(cell(col.second.first, col.second.second));
  }
  auto info = std::make_shared<ColumnInfo>(descs);
  std::vector<std::pair<std::string, std::pair<std::string, std::string>>> mapping;
  std::vector<std::pair<std::string, float>>                               thresholds;
  std::vector<std::pair<std::string, bool>>                                mags;
  for (auto& b : bands) {
    mapping.push_back({b.name, {b.name + "_F", b.name + "_E"}});
    thresholds.push_back({b.name, b.n});
    mags.push_back({b.name, b.mag});
  }
  if (c.b(1, 6)) {  // nothing said about magnitudes: all of them are fluxes
    mags.clear();
    for (auto& b : bands)
      b.mag = false;
  }
  c.describe([&](std::ostream& o) {
    o << (k.missing ? "missing=" + pbt::str(k.missing_flag) : "no missing") << (k.upper ? " upper=" + pbt::str(k.upper_flag) : " no upper limits");
    for (auto& b : bands)
      o << " [" << b.flux << " +- " << b.err << (b.mag ? " mag" : "") << " n=" << b.n << "]";
  });
  std::vector<Out> want;
  bool             refused = false;
  for (auto& b : bands) {
    want.push_back(photometry::parse(k, b));
    refused = refused || want.back().refused;
  }
  c.nontrivial(n > 1 || refused);
  c.label("refused", refused);
  PhotometryAttributeFromRow maker(info, mapping, k.missing, k.missing_flag, k.upper, thresholds, k.upper_flag, mags);
  Row                        row(cells, info);
  if (refused) {
    CHECK_THROWS(maker.createAttribute(row), PhotometryParsingException, "accepted");
    return;
  }
  auto attribute = maker.createAttribute(row);
  auto phot      = dynamic_cast<Photometry*>(attribute.get());
  CHECK(phot && phot->size() == n, "no photometry of " << n << " filters");
  std::size_t j = 0;
  for (auto it = phot->begin(); it != phot->end(); ++it, ++j) {
    auto& w = want[j];
    CHECK(it.filterName() == bands[j].name && (*phot->getFilterNames())[j] == bands[j].name, "filter " << j << " is " << it.filterName());
    auto p = phot->find(bands[j].name);
    CHECK(p && *p == *it, "filter " << j << " is found as another");
    CHECK(it->missing_photometry_flag == w.missing && it->upper_limit_flag == w.upper, "filter " << j << " is missing: " << it->missing_photometry_flag << ", upper limit: " << it->upper_limit_flag);
    CHECK(pbt::close(it->flux, w.flux, w.tol), "the flux of filter " << j << " is " << it->flux << " instead of " << w.flux);
    CHECK(pbt::close(it->error, w.err, w.tol), "the error of filter " << j << " is " << it->error << " instead of " << w.err);
    c.label("missing", w.missing);
    c.label("upper limit", w.upper);
  }
  CHECK(phot->find("nothing") == nullptr, "a filter nobody has is found");
  // columns that are not there
  auto bad = mapping;
  if (c.b())
    bad[c.n(0, n - 1)].second.first = "nothing";
  else
    bad[c.n(0, n - 1)].second.second = "nothing";
  CHECK_THROWS(PhotometryAttributeFromRow(info, bad, k.missing, k.missing_flag, k.upper, thresholds, k.upper_flag, mags), Elements::Exception, "there is no such column");
}

// Values and their filters
PBT_TEST(photometry, pbt::cases(60000, 3000000)) {
  std::size_t                n     = c.size(0, 8, 400, 300);
  auto                       names = std::make_shared<std::vector<std::string>>();
  std::vector<FluxErrorPair> values;
  std::vector<std::string>   pool{"u", "g", "r", "i", "z", "Y", "J", "H", "rr"};
  while (pool.size() < n)
    pool.push_back("band_" + std::to_string(pool.size()));
  c.shuffle(pool);
  for (std::size_t j = 0; j < n; ++j) {
    names->push_back(pool[j]);
    values.push_back(FluxErrorPair(static_cast<double>(c.i(0, 3)), static_cast<double>(c.i(0, 1)), c.b(1, 4), c.b(1, 4)));
  }
  c.describe([&](std::ostream& o) {
    for (std::size_t j = 0; j < n; ++j)
      o << (*names)[j] << "=" << values[j].flux << "+-" << values[j].error << (values[j].missing_photometry_flag ? "m" : "") << (values[j].upper_limit_flag ? "u " : " ");
  });
  c.nontrivial(n > 1);
  if (n && c.b(1, 6)) {
    auto fewer = values;
    fewer.pop_back();
    CHECK_THROWS(Photometry(names, fewer), Elements::Exception, "more names than values");
    CHECK_THROWS(Photometry(nullptr, values), Elements::Exception, "no names");
  }
  Photometry        p(names, values);
  const Photometry& cp = p;
  CHECK(p.size() == n && cp.end() - cp.begin() == static_cast<ssize_t>(n) && p.end() - p.begin() == static_cast<ssize_t>(n), "the size is " << p.size());
  std::size_t j = 0;
  for (auto it = cp.cbegin(); it != cp.cend(); ++it, ++j)
    CHECK(it.filterName() == (*names)[j] && it->flux == values[j].flux && it->error == values[j].error && (*it).missing_photometry_flag == values[j].missing_photometry_flag && it->upper_limit_flag == values[j].upper_limit_flag, "value " << j << " is another one");
  CHECK(j == n, "iterated over " << j << " values");
  for (auto& name : pool) {
    std::size_t pos = std::find(names->begin(), names->end(), name) - names->begin();
    auto        f   = cp.find(name);
    CHECK((f != nullptr) == (pos < n), name << " is found: " << (f != nullptr));
    if (f)
      CHECK(f->flux == values[pos].flux && f->error == values[pos].error && f->missing_photometry_flag == values[pos].missing_photometry_flag && f->upper_limit_flag == values[pos].upper_limit_flag, name << " has another value");
  }
  // changed through the iterators of one, and not of its copies
  if (n) {
    Photometry  copy(p);
    std::size_t at = c.n(0, n - 1);
    auto        it = p.begin();
    for (std::size_t s = 0; s < at; ++s)
      ++it;
    it->flux = 1234;
    CHECK(cp.find((*names)[at])->flux == 1234, "a value cannot be changed");
    CHECK(copy.find((*names)[at])->flux == values[at].flux, "changing a value changed a copy");
    for (std::size_t s = 0; s < n; ++s)
      CHECK(s == at || cp.find((*names)[s])->flux == values[s].flux, "changing a value changed another one");
  }
  // missing values are all the same; others are compared by what they are
  for (auto& a : values)
    for (auto& b : values) {
      bool eq = (a.missing_photometry_flag && b.missing_photometry_flag) || (a.missing_photometry_flag == b.missing_photometry_flag && a.flux == b.flux && a.error == b.error && a.upper_limit_flag == b.upper_limit_flag);
      if (a.missing_photometry_flag == b.missing_photometry_flag)
        CHECK((a == b) == eq && (a != b) == !eq, "two values compare as " << (a == b));
    }
}
