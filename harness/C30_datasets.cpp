// C30: datasets from files, and their providers
#include "ElementsKernel/Exception.h"
#include "XYDataset/AsciiParser.h"
#include "XYDataset/CachedProvider.h"
#include "XYDataset/FileSystemProvider.h"
#include "XYDataset/FitsParser.h"
#include "common/pbt.h"
#include <CCfits/CCfits>
#include <boost/filesystem.hpp>
#include <fstream>

using namespace Euclid::XYDataset;
using pbt::Case;
namespace fs = boost::filesystem;
using Pairs  = std::vector<std::pair<double, double>>;
using Parts  = std::vector<std::string>;

namespace {

struct Dir {
  fs::path path;
  Dir() : path(fs::path(pbt::scratchDir()) / "tree") {
    fs::remove_all(path);
    fs::create_directories(path);
  }
  ~Dir() {
    boost::system::error_code e;
    fs::remove_all(path, e);
  }
};

double number(Case& c) {
  switch (c.n(0, 3)) {
  case 0: return static_cast<double>(c.i(-1000, 100000));
  case 1: return c.real(-1e3, 1e4);
  case 2: return c.real(-1, 1) * std::pow(10., static_cast<double>(c.i(-300, 300)));
  default: return c.pick({0., -0., 1e308, 4.9e-324, std::numeric_limits<double>::infinity(), -std::numeric_limits<double>::infinity(), 0.1});
  }
}

std::string text(Case& c, double v) {
  if (std::isinf(v))
    return v > 0 ? "inf" : "-inf";
  std::ostringstream s;
  if (c.b())
    s << std::scientific;
  s.precision(17);
  s << v;
  return s.str();
}

Pairs genPairs(Case& c, std::size_t least) {
  Pairs       p;
  std::size_t n = c.size(least, 12, 3000, 300);
  for (std::size_t k = 0; k < n; ++k) {
    double x = number(c);
    p.push_back({x, number(c)});
  }
  return p;
}

std::string word(Case& c, std::size_t serial) {
  return c.pick({"x", "Test", "my_name", "G", "filter7", "a1"}) + std::to_string(serial);
}

// What a file is to be read as
struct Expect {
  bool                               dataset = false;
  std::string                        first_line_name, default_regex_name;
  std::map<std::string, std::string> params;
  Pairs                              data;
  std::string                        text;
};

const std::vector<std::string> KEYS{"NAME", "TEST", "TEST_2", "TES", "REF", "TES.", "REF(1)", "A+B", "[X]", "REF|NAME", "P\\w", "Test", "ref", "Name"};

Expect genAscii(Case& c) {
  Expect             e;
  std::ostringstream o;
  std::size_t        serial = 0;
  bool               first = true;
  auto               eol = [&] { o << "\n"; };
  auto               note = [&](bool named) {  // the first line may have the name
    if (first && named)
      return;
    first = false;
  };
  auto blank = [&] { return std::string(c.n(0, 2), c.b() ? ' ' : '\t'); };
  std::vector<std::string> values;
  auto comments = [&](std::size_t most) {
    std::size_t n = c.len(0, most);
    for (std::size_t k = 0; k < n; ++k) {
      switch (c.weighted({2, 3, 2, 3, 1})) {
      case 0:
        if (!first)
          o << blank();
        eol();
        break;
      case 1: {  // a name, if it is the first line
        std::string w = word(c, ++serial);
        o << blank() << "#" << blank() << w << blank();
        if (first)
          e.first_line_name = w;
        first = false;
        eol();
        break;
      }
      case 2: {  // some text
        note(false);
        o << blank() << "#" << blank() << word(c, ++serial) << " " << word(c, ++serial) << " " << word(c, ++serial) << " 12 : end" << serial;
        eol();
        break;
      }
      case 3: {  // a parameter
        note(false);
        std::string key = c.b(1, 4) ? "NAME" : c.pick(KEYS), value = word(c, ++serial);
        if (c.b(1, 3))
          value += c.pick({" and more", ":1", " # here", "; x", ".dat", " - y"});
        if (!values.empty() && c.b(1, 4))  // a value that was there already, mostly the last one
          value = c.b() ? values.back() : c.pick(values);
        values.push_back(value);
        if (e.params.count(key) && c.b(1, 5) && e.params[key].find(';') == std::string::npos)
          value = e.params[key];
        o << blank() << "#" << blank() << key << blank() << ":" << blank() << value << blank();
        auto& v = e.params[key];
        v += (v.empty() ? "" : ";") + value;
        eol();
        break;
      }
      default:
        note(false);
        o << blank() << "#";
        eol();
      }
    }
  };
  comments(6);
  std::size_t kind = c.weighted({8, 1, 1, 1});
  e.dataset        = kind == 0;
  if (kind == 0) {
    e.data       = genPairs(c, 1);
    bool last_nl = c.b(3, 4);
    for (std::size_t k = 0; k < e.data.size(); ++k) {
      note(false);
      o << blank() << text(c, e.data[k].first) << c.pick({" ", "\t", "   ", " \t "}) << text(c, e.data[k].second) << blank();
      if (c.b(1, 8))
        o << " # " << word(c, ++serial);
      if (k + 1 < e.data.size() || last_nl)
        eol();
      if (last_nl && c.b(1, 8))
        comments(2);
    }
  } else if (kind == 1) {  // a line that is no pair of numbers
    note(false);
    o << c.pick({"1.5", "1 2 3", "a b", "1 b", "a 1", "1,2", "1 2 x", "1.5.2 3", "1 2e"});
    eol();
  } else if (kind == 2) {  // a header without its comment sign
    note(false);
    o << "X Y\n1 2\n";
  }
  e.text = o.str();
  return e;
}

std::string baseName(const std::string& file) {
  auto p = file.rfind('.');
  return p == std::string::npos ? file : file.substr(0, p);
}

std::string fileName(Case& c, std::size_t serial) {
  return c.pick({"f", "Gext_ACS", "data.set", "B-1", "a b"}) + std::to_string(serial) + c.pick({".txt", "", ".dat", ".a.b", "."});
}

std::string asciiName(const Expect& e, const std::string& file) {
  auto i = e.params.find("NAME");
  return i != e.params.end() ? i->second : !e.first_line_name.empty() ? e.first_line_name : baseName(file);
}

std::string param(const Expect& e, const std::string& key) {
  auto i = e.params.find(key);
  return i == e.params.end() ? "" : i->second;
}

void samePairs(const XYDataset* d, const Pairs& p, const std::string& what) {
  CHECK(d != nullptr, what << " has no dataset");
  CHECK(d->size() == p.size(), what << " has " << d->size() << " points instead of " << p.size());
  std::size_t k = 0;
  for (auto& v : *d) {
    CHECK(v == p[k] && std::signbit(v.first) == std::signbit(p[k].first), what << " has (" << v.first << ", " << v.second << ") as point " << k << " instead of (" << p[k].first << ", " << p[k].second << ")");
    ++k;
  }
  if (!p.empty())
    CHECK(d->front() == p.front() && d->back() == p.back(), what << " has other ends");
}

void write(const fs::path& p, const std::string& s) {
  std::ofstream o(p.string(), std::ios::binary);
  o << s;
}

}  // namespace

PBT_TEST(dataset, pbt::cases(20000, 1000000)) {
  std::vector<double> x, y;
  std::size_t         n = c.size(0, 20, 3000, 300), m = c.b(1, 4) ? c.len(0, 20) : n;
  for (std::size_t k = 0; k < n; ++k)
    x.push_back(number(c));
  for (std::size_t k = 0; k < m; ++k)
    y.push_back(number(c));
  c.describe([&](std::ostream& o) { o << pbt::str(x) << " and " << pbt::str(y); });
  c.nontrivial(n > 1);
  if (n != m) {
    CHECK_THROWS(XYDataset::factory(x, y), Elements::Exception, n << " and " << m << " values");
    return;
  }
  Pairs p;
  for (std::size_t k = 0; k < n; ++k)
    p.push_back({x[k], y[k]});
  auto a = XYDataset::factory(x, y), b = XYDataset::factory(p);
  samePairs(&a, p, "the dataset of two vectors");
  samePairs(&b, p, "the dataset of pairs");
  XYDataset copy(a);
  samePairs(&copy, p, "a copy");
  XYDataset moved(std::move(a));
  samePairs(&moved, p, "a moved dataset");
}

PBT_TEST(ascii, pbt::cases(12000, 600000)) {
  Dir         dir;
  auto        e    = genAscii(c);
  std::string name = fileName(c, 0), file = (dir.path / name).string();
  c.describe([&](std::ostream& o) { o << "file " << name << ":\n" << e.text; });
  write(file, e.text);
  c.nontrivial(e.dataset && e.data.size() > 1);
  c.label("no newline at the end", e.dataset && e.text.back() != '\n');
  c.label("not a dataset", !e.dataset);
  AsciiParser parser;
  CHECK(parser.isDatasetFile(file) == e.dataset, (e.dataset ? "is not taken for a dataset" : "is taken for a dataset"));
  CHECK(parser.getName(file) == asciiName(e, name), "the name is '" << parser.getName(file) << "' instead of '" << asciiName(e, name) << "'");
  for (auto& k : KEYS)
    CHECK(parser.getParameter(file, k) == param(e, k), k << " is '" << parser.getParameter(file, k) << "' instead of '" << param(e, k) << "'");
  CHECK(parser.getParameter(file, "OTHER") == "", "there is a parameter nobody wrote");
  if (e.dataset)
    samePairs(parser.getDataset(file).get(), e.data, "the file");
  // other than the default expression for the name
  AsciiParser custom("^\\s*#\\s*([a-z]+)\\d*\\s*$");
  std::string cname = e.first_line_name;
  while (!cname.empty() && isdigit(cname.back()))
    cname.pop_back();
  bool        fits = !cname.empty() && std::all_of(cname.begin(), cname.end(), [](char ch) { return ch >= 'a' && ch <= 'z'; });
  auto        it = e.params.find("NAME");
  std::string want = it != e.params.end() ? it->second : fits ? cname : baseName(name);
  CHECK(custom.getName(file) == want, "with another expression the name is '" << custom.getName(file) << "' instead of '" << want << "'");
  // files that are not there
  std::string none = (dir.path / "none" / name).string();
  CHECK(!parser.isDatasetFile(none) && parser.getDataset(none) == nullptr, "a file that is not there has a dataset");
  CHECK_THROWS(parser.getName(none), Elements::Exception, "the name of a file that is not there");
  CHECK_THROWS(parser.getParameter(none, "TEST"), Elements::Exception, "the parameter of a file that is not there");
}

PBT_TEST(fits, pbt::cases(8000, 400000)) {
  Dir         dir;
  std::string name = fileName(c, 0), file = (dir.path / name).string(), dataset = word(c, 1);
  auto        p     = genPairs(c, 1);
  int         kind  = static_cast<int>(c.weighted({6, 1, 1, 1}));
  bool        named = c.b();
  c.describe([&](std::ostream& o) { o << "file " << name << " kind " << kind << (named ? " with a name" : "") << ", " << p.size() << " points"; });
  if (kind == 3) {
    write(file, "no FITS at all\n1 2\n");
  } else {
    CCfits::FITS f("!" + file, CCfits::RWmode::Write);
    if (kind == 0) {
      auto                t = f.addTable("extension", static_cast<int>(p.size()), {"X", "Y"}, {"D", "D"});
      std::vector<double> x, y;
      for (auto& v : p) {
        x.push_back(v.first);
        y.push_back(v.second);
      }
      t->column(1).write(x, 1);
      t->column(2).write(y, 1);
      if (named)
        t->addKey("DATASET", dataset, "");
      t->addKey("REF", std::string("value"), "");
    } else if (kind == 1) {
      std::vector<long> axes{2, 2};
      f.addImage("image", 16, axes);
    }
  }
  c.nontrivial(kind == 0 && p.size() > 1);
  FitsParser parser("DATASET"), plain;
  CHECK(parser.isDatasetFile(file) == (kind == 0), "taken for a dataset: " << parser.isDatasetFile(file));
  if (kind == 0) {
    CHECK(parser.getName(file) == (named ? dataset : baseName(name)), "the name is '" << parser.getName(file) << "'");
    CHECK(plain.getName(file) == baseName(name), "without a keyword the name is '" << plain.getName(file) << "'");
    CHECK(parser.getParameter(file, "REF") == "value" && parser.getParameter(file, "NOREF") == "", "other parameters");
    samePairs(parser.getDataset(file).get(), p, "the file");
  }
  std::string none = (dir.path / "none" / name).string();
  CHECK(!parser.isDatasetFile(none) && parser.getDataset(none) == nullptr, "a file that is not there has a dataset");
  CHECK_THROWS(parser.getName(none), Elements::Exception, "the name of a file that is not there");
}

namespace {

// A tree of directories, with what is expected of it
struct Tree {
  struct Entry {
    Parts  parts;
    Expect e;
  };
  std::vector<Entry> listed;  // in the order
  std::size_t        files = 0, dirs = 0, ordered = 0;
  bool               clash = false;
  std::ostringstream log;
  std::size_t        budget = 0;

  void fill(Case& c, const fs::path& dir, const Parts& groups, std::size_t depth, std::vector<Entry>& out) {
    std::map<std::string, std::vector<Entry>> content;
    std::size_t                               n = c.len(groups.empty() ? 1 : 0, 5);
    std::set<std::string>                     names;
    for (std::size_t k = 0; k < n && budget > 0; ++k, --budget) {
      if (depth < 3 && c.b(1, 3)) {
        std::string name = c.pick({"A", "B", "AB", "filter", "MER", "a.d", "a", "Filter", "ab"});
        if (content.count(name))
          continue;
        ++dirs;
        fs::create_directory(dir / name);
        Parts g = groups;
        g.push_back(name);
        fill(c, dir / name, g, depth + 1, content[name]);
      } else {
        std::string name = c.b(1, 5) ? c.pick({"A1", "B.txt", ".hidden", "order2.txt"}) : fileName(c, k);
        if (content.count(name))
          continue;
        auto  e = genAscii(c);
        auto& v = content[name];
        ++files;
        write(dir / name, e.text);
        log << (dir / name).string() << ":\n" << e.text << (e.text.empty() || e.text.back() != '\n' ? "<no newline>\n" : "");
        std::string ds = asciiName(e, name);
        if (e.dataset && !ds.empty()) {
          Parts p = groups;
          p.push_back(ds);
          v.push_back({p, e});
          clash = clash || !names.insert(ds).second;
        }
      }
    }
    std::vector<std::string> order;
    if (c.b(1, 3)) {
      for (auto& e : content)
        if (c.b(2, 3))
          order.push_back(e.first);
      c.shuffle(order);
      std::ostringstream o;
      for (auto& s : order) {
        if (c.b(1, 6))
          o << c.pick({"\n", "# a comment\n", "not_there\n", "  \n"});
        o << (c.b(1, 6) ? "  " : "") << s << (c.b(1, 6) ? "  # comment" : "") << (&s == &order.back() && c.b() ? "" : "\n");
      }
      write(dir / "order.txt", o.str());
      log << (dir / "order.txt").string() << ":\n" << o.str() << "\n";
      ++ordered;
    }
    for (auto& s : order) {
      auto& v = content[s];
      out.insert(out.end(), v.begin(), v.end());
    }
    // those that are not listed follow in the order of their names
    for (auto& e : content)
      if (std::find(order.begin(), order.end(), e.first) == order.end())
        out.insert(out.end(), e.second.begin(), e.second.end());
  }
};

std::string join(const Parts& p) {
  std::string s;
  for (std::size_t k = 0; k < p.size(); ++k)
    s += (k ? "/" : "") + p[k];
  return s;
}

// Counts what it is asked for
struct Counting : public XYDatasetProvider {
  std::shared_ptr<XYDatasetProvider> inner;
  std::map<std::string, int>         lists, sets;
  std::vector<QualifiedName>         listContents(const std::string& g) override {
    ++lists[g];
    return inner->listContents(g);
  }
  std::string getParameter(const QualifiedName& q, const std::string& k) override { return inner->getParameter(q, k); }
  std::unique_ptr<XYDataset> getDataset(const QualifiedName& q) override {
    ++sets[q.qualifiedName()];
    return inner->getDataset(q);
  }
};

}  // namespace

PBT_TEST(provider, pbt::cases(4000, 200000)) {
  Dir  dir;
  Tree t;
  t.budget = 14;
  t.fill(c, dir.path, {}, 0, t.listed);
  std::string root = dir.path.string() + c.pick({"", "/", "//", "///"});
  c.describe([&](std::ostream& o) { o << "root " << root << "\n" << t.log.str(); });
  c.nontrivial(t.listed.size() > 1 && t.dirs > 0);
  c.label("two datasets of the same name", t.clash);
  c.label("with order.txt", t.ordered > 0);
  std::unique_ptr<FileParser> parser(new AsciiParser());
  if (t.clash) {
    CHECK_THROWS(FileSystemProvider(root, std::move(parser)), Elements::Exception, "two datasets have the same name");
    return;
  }
  auto                               fsp = std::make_shared<FileSystemProvider>(root, std::move(parser));
  auto                               counting = std::make_shared<Counting>();
  std::shared_ptr<XYDatasetProvider> provider = fsp;
  bool                               cached = c.b();
  if (cached) {
    counting->inner = fsp;
    provider        = std::make_shared<CachedProvider>(counting);
  }
  // groups that are there, parts of their names, and others
  std::vector<Parts> groups{{}, {"A"}, {"AB"}, {"none"}, {"A", "B"}, {"filter", "MER"}, {"a"}, {"b"}, {"FILTER"}};
  for (auto& e : t.listed) {
    groups.push_back(Parts(e.parts.begin(), e.parts.end() - 1));
    groups.push_back(e.parts);
    if (c.b(1, 4)) {  // in other letters it is another group
      auto g = groups[groups.size() - 2];
      for (auto& part : g)
        for (auto& ch : part)
          ch = static_cast<char>(std::isupper(static_cast<unsigned char>(ch)) ? std::tolower(static_cast<unsigned char>(ch)) : std::toupper(static_cast<unsigned char>(ch)));
      groups.push_back(g);
    }
  }
  std::size_t steps = c.len(1, 12);
  for (std::size_t s = 0; s < steps; ++s) {
    if (c.b()) {
      auto        g = c.pick(groups);
      std::string text = c.pick({"", "/", "//"}) + join(g) + c.pick({"", "/", "//"});
      auto        got  = provider->listContents(text);
      Parts       want, have;
      for (auto& e : t.listed)
        if (g.size() < e.parts.size() && std::equal(g.begin(), g.end(), e.parts.begin()))
          want.push_back(join(e.parts));
      for (auto& q : got)
        have.push_back(q.qualifiedName());
      CHECK(have == want, "group '" << text << "' has " << pbt::str(have) << " instead of " << pbt::str(want));
    } else if (!t.listed.empty() && c.b(5, 6)) {
      auto&         e = t.listed[c.n(0, t.listed.size() - 1)];
      QualifiedName q(join(e.parts));
      if (c.b(2, 3)) {
        samePairs(provider->getDataset(q).get(), e.e.data, join(e.parts));
      } else {
        std::string key = c.pick(KEYS);
        CHECK(provider->getParameter(q, key) == param(e.e, key), key << " of " << q << " is '" << provider->getParameter(q, key) << "'");
      }
    } else {
      QualifiedName q(join(c.pick(groups).empty() ? Parts{"nobody"} : Parts{"A", "nobody"}));
      CHECK(provider->getDataset(q) == nullptr, q << " has a dataset");
      CHECK(provider->getParameter(q, "NAME") == "", q << " has a parameter");
    }
  }
  for (auto& e : counting->lists)
    CHECK(e.second == 1, "the cached group '" << e.first << "' was listed " << e.second << " times");
  for (auto& e : counting->sets)
    CHECK(e.second == 1, "the cached dataset '" << e.first << "' was read " << e.second << " times");
}

PBT_TEST(no_directory, pbt::cases(500, 20000)) {
  Dir         dir;
  bool        file = c.b();
  std::string path = (dir.path / ("x" + std::to_string(c.n(0, 9)))).string();
  if (file)
    write(path, "1 2\n");
  c.describe([&](std::ostream& o) { o << path << (file ? " is a file" : " is not there"); });
  c.nontrivial();
  CHECK_THROWS(FileSystemProvider(path, std::unique_ptr<FileParser>(new AsciiParser())), Elements::Exception, "the root is no directory");
}
