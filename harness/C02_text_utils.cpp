// C02: lists in option values and names of wildcard options
#include "AlexandriaKernel/StringUtils.h"
#include "Configuration/ProgramOptionsHelper.h"
#include "common/pbt.h"

using pbt::Case;
using Euclid::Configuration::ProgramOptionsHelper;

namespace {

std::string genSeparator(Case& c, const std::string& chars) {
  std::string s;
  std::size_t n = c.n(1, 3);
  for (std::size_t k = 0; k < n; ++k)
    s += c.pick(chars);
  return s;
}
std::string spaces(Case& c) { return std::string(c.pick({0, 0, 1, 3}), ' '); }

template <typename T>
T genValue(Case& c);
template <>
int genValue<int>(Case& c) {
  return c.weighted({3, 1}) == 0 ? static_cast<int>(c.i(-1000, 1000)) : c.pick({0, std::numeric_limits<int>::max(), std::numeric_limits<int>::min()});
}
template <>
std::int64_t genValue<std::int64_t>(Case& c) {
  return static_cast<std::int64_t>(c.draw(0));
}
template <>
unsigned genValue<unsigned>(Case& c) {
  return static_cast<unsigned>(c.draw(1ull << 32));
}
template <>
double genValue<double>(Case& c) {
  return c.real(-1e6, 1e6) * c.pick({1., 1e-12, 1e200});
}
template <>
float genValue<float>(Case& c) {
  return static_cast<float>(c.real(-1e6, 1e6));
}
template <>
std::string genValue<std::string>(Case& c) {
  std::string s;
  std::size_t n = c.n(1, 8);
  for (std::size_t k = 0; k < n; ++k)
    s += c.pick(std::string("abcXYZ019._-/\"'#"));
  return s;
}

template <typename T>
void roundTrip(Case& c) {
  std::string    seps = c.pick({std::string(", "), std::string(","), std::string(";|"), std::string(" \t,")});
  std::vector<T> v(c.size(1, 30, 5000, 400));
  std::string    text = spaces(c);
  for (std::size_t k = 0; k < v.size(); ++k) {
    v[k] = genValue<T>(c);
    if (k)
      text += genSeparator(c, seps);
    text += boost::lexical_cast<std::string>(v[k]);
  }
  text += spaces(c);
  c.describe([&](std::ostream& o) { o << "text \"" << text << "\" separators \"" << seps << "\""; });
  c.nontrivial(v.size() > 1);
  auto r = seps == ", " && c.b() ? Euclid::stringToVector<T>(text) : Euclid::stringToVector<T>(text, seps);
  CHECK(r.size() == v.size(), "parsed " << r.size() << " elements instead of " << v.size());
  for (std::size_t k = 0; k < v.size(); ++k)
    CHECK(r[k] == v[k], "element " << k << " is " << r[k] << " instead of " << v[k]);
}
}  // namespace

PBT_TEST(list_of_int, pbt::cases(40000, 600000)) { roundTrip<int>(c); }
PBT_TEST(list_of_int64, pbt::cases(40000, 600000)) { roundTrip<std::int64_t>(c); }
PBT_TEST(list_of_unsigned, pbt::cases(30000, 400000)) { roundTrip<unsigned>(c); }
PBT_TEST(list_of_double, pbt::cases(40000, 600000)) { roundTrip<double>(c); }
PBT_TEST(list_of_float, pbt::cases(30000, 400000)) { roundTrip<float>(c); }
PBT_TEST(list_of_string, pbt::cases(30000, 400000)) { roundTrip<std::string>(c); }

// One element that is not a number makes the whole list an error
PBT_TEST(list_with_garbage, pbt::cases(40000, 600000)) {
  std::size_t n = c.size(1, 12, 1000, 400), bad = c.n(0, n - 1);
  std::string text;
  for (std::size_t k = 0; k < n; ++k) {
    if (k)
      text += genSeparator(c, ", ");
    text += k == bad ? c.pick({std::string("x"), std::string("1x"), std::string("--2"), std::string("1.5.2"), std::string("0x1F"), std::string("12a"), std::string("99999999999"), std::string("1;2")})
                     : std::to_string(c.i(-99, 99));
  }
  c.describe([&](std::ostream& o) { o << "text \"" << text << "\""; });
  c.nontrivial(n > 1);
  CHECK_THROWS(Euclid::stringToVector<int>(text), Elements::Exception, "list with a bad element was accepted: " << text);
}

// The instances found are the ones for which a wildcard option was given
PBT_TEST(wildcard_names, pbt::cases(40000, 600000)) {
  // no base name followed by the separator is the beginning of another one
  const std::vector<std::string> bases{"filter-name", "x-file", "output", "outputs", "out", "x-fil", "threshold"};
  std::vector<std::string>       searched;
  std::map<std::string, boost::program_options::variable_value> options;
  std::set<std::string> expected;
  for (auto& b : bases)
    if (c.b())
      searched.push_back(b);
  std::size_t n = c.size(0, 15, 1000, 400);
  for (std::size_t k = 0; k < n; ++k) {
    std::string base = c.pick(bases);
    std::string inst;
    std::size_t l = c.n(1, 6);
    for (std::size_t j = 0; j < l; ++j)
      inst += c.pick(std::string("abcAB01_-."));
    options[ProgramOptionsHelper::wildcard(base, inst)] = boost::program_options::variable_value(std::string("v"), false);
    if (std::find(searched.begin(), searched.end(), base) != searched.end())
      expected.insert(inst);
  }
  for (auto other : {"zeta", "fil", "a-output", "output", "outputxabc", "thresholds", "out_put-a", "Output-a"})
    if (c.b(1, 3))
      options[other] = boost::program_options::variable_value(1, false);
  c.describe([&](std::ostream& o) {
    o << "searched " << pbt::str(searched) << " in";
    for (auto& p : options)
      o << " " << p.first;
  });
  c.nontrivial(!expected.empty() && expected.size() < options.size());
  auto got = ProgramOptionsHelper::findWildcardNames(searched, options);
  CHECK(got == expected, "found " << pbt::str(std::vector<std::string>(got.begin(), got.end())) << " instead of "
                                  << pbt::str(std::vector<std::string>(expected.begin(), expected.end())));
  for (auto& inst : got) {
    bool any = false;
    for (auto& b : searched)
      any = any || options.count(ProgramOptionsHelper::wildcard(b, inst));
    CHECK(any, "no option belongs to the instance " << inst);
  }
}
