// C29: qualified names
#include "ElementsKernel/Exception.h"
#include "XYDataset/QualifiedName.h"
#include "XYDataset/serialize.h"
#include "common/pbt.h"
#include <boost/archive/binary_iarchive.hpp>
#include <boost/archive/binary_oarchive.hpp>
#include <boost/archive/text_iarchive.hpp>
#include <boost/archive/text_oarchive.hpp>
#include <unordered_map>

using Euclid::XYDataset::QualifiedName;
using pbt::Case;

namespace {

// Few different ones, so that names are often the same, or one the beginning of another
std::string part(Case& c) {
  static const std::vector<std::string> common{"a", "b", "ab", "aa", "A", " ", "a b", "filter", "MER", ".", "..", "a.b", "\xc3\xa9"};
  if (c.b(5, 6))
    return c.pick(common);
  std::string s;
  std::size_t n = c.len(1, 20);
  for (std::size_t k = 0; k < n; ++k) {
    char ch = static_cast<char>(c.n(1, 255));
    s.push_back(ch == '/' ? '_' : ch);
  }
  return s;
}

using Parts = std::vector<std::string>;

std::string join(const Parts& p) {
  std::string s;
  for (std::size_t k = 0; k < p.size(); ++k)
    s += (k ? "/" : "") + p[k];
  return s;
}

Parts gen(Case& c) {
  Parts       p;
  std::size_t n = c.len(1, 5);
  for (std::size_t k = 0; k < n; ++k)
    p.push_back(part(c));
  return p;
}

QualifiedName make(Case& c, const Parts& p) {
  if (c.b())
    return QualifiedName(join(p));
  return QualifiedName(Parts(p.begin(), p.end() - 1), p.back());
}

void same(const QualifiedName& q, const Parts& p, const std::string& what) {
  CHECK(q.qualifiedName() == join(p), what << ": the name is '" << q.qualifiedName() << "' instead of '" << join(p) << "'");
  CHECK(q.groups() == Parts(p.begin(), p.end() - 1), what << ": the groups are " << pbt::str(q.groups()));
  CHECK(q.datasetName() == p.back(), what << ": the dataset is '" << q.datasetName() << "'");
  std::ostringstream o;
  o << q;
  CHECK(o.str() == join(p), what << ": printed as '" << o.str() << "'");
}

template <typename O, typename I>
QualifiedName roundTrip(const QualifiedName& q, const QualifiedName& second) {
  std::stringstream s;
  {
    O                    out(s);
    const QualifiedName *p = &q, *p2 = &second;
    out << p << p2;
  }
  I              in(s);
  QualifiedName *r = nullptr, *r2 = nullptr;
  in >> r >> r2;
  std::unique_ptr<QualifiedName> u(r), u2(r2);
  CHECK(*r2 == second, "the second name of an archive is '" << r2->qualifiedName() << "'");
  return *r;
}

}  // namespace

PBT_TEST(parts, pbt::cases(100000, 5000000)) {
  auto p = gen(c), p2 = gen(c);
  c.describe([&](std::ostream& o) { o << "name '" << join(p) << "', and '" << join(p2) << "'"; });
  c.nontrivial(p.size() > 1);
  auto q = make(c, p), q2 = make(c, p2);
  same(q, p, "constructed");
  // through copies, moves and assignments, with and without the hash being known
  if (c.b())
    q.hash();
  if (c.b())
    q2.hash();
  QualifiedName copy(q);
  same(copy, p, "copied");
  QualifiedName target(q2);
  target = q;
  same(target, p, "assigned");
  CHECK(target == q && target.hash() == q.hash(), "an assigned name is not equal");
  target = std::move(q2);
  same(target, p2, "moved");
  CHECK(target == QualifiedName(join(p2)) && target.hash() == QualifiedName(join(p2)).hash(), "a moved name is not equal");
  QualifiedName moved(std::move(copy));
  same(moved, p, "move constructed");
  // serialized
  if (c.b())
    same(roundTrip<boost::archive::text_oarchive, boost::archive::text_iarchive>(q, target), p, "from a text archive");
  else
    same(roundTrip<boost::archive::binary_oarchive, boost::archive::binary_iarchive>(q, target), p, "from a binary archive");
}

// Parts that are empty, and slashes inside of the parts
PBT_TEST(refused, pbt::cases(60000, 3000000)) {
  auto        p   = gen(c);
  std::size_t bad = c.n(0, p.size() - 1);
  bool        string = c.b();
  if (string || c.b())
    p[bad] = "";
  else
    p[bad].insert(c.n(0, p[bad].size()), "/");
  c.describe([&](std::ostream& o) { o << pbt::str(p) << (string ? " as a string" : ""); });
  c.nontrivial(p.size() > 1);
  if (string)
    CHECK_THROWS(QualifiedName(join(p)), Elements::Exception, "'" << join(p) << "' was accepted");
  else
    CHECK_THROWS(QualifiedName(Parts(p.begin(), p.end() - 1), p.back()), Elements::Exception, "accepted");
}

// Comparisons of many names with each other
PBT_TEST(order, pbt::cases(20000, 1000000)) {
  std::vector<Parts>         all;
  std::vector<QualifiedName> names;
  std::size_t                n = c.len(2, 12);
  for (std::size_t k = 0; k < n; ++k) {
    Parts p = k && c.b(1, 3) ? c.pick(all) : gen(c);
    if (k && c.b(1, 6)) {  // another way to cut the same letters
      p = c.pick(all);
      p.push_back(part(c));
    }
    all.push_back(p);
    names.push_back(make(c, p));
    if (c.b())
      names.back().hash();
  }
  c.describe([&](std::ostream& o) {
    for (auto& p : all)
      o << "'" << join(p) << "' ";
  });
  std::set<std::string> distinct;
  for (auto& p : all)
    distinct.insert(join(p));
  c.nontrivial(distinct.size() > 1);
  c.label("the same name twice", distinct.size() < n);
  for (std::size_t i = 0; i < n; ++i)
    for (std::size_t j = 0; j < n; ++j) {
      auto &a = names[i], &b = names[j];
      bool  eq = join(all[i]) == join(all[j]);
      CHECK((a == b) == eq && (a != b) == !eq, "'" << a << "' == '" << b << "' is " << (a == b));
      CHECK(!eq || (a.hash() == b.hash() && std::hash<QualifiedName>()(a) == std::hash<QualifiedName>()(b)), "the same name has two hashes");
      CHECK((a < b) + (b < a) == (eq ? 0 : 1), "'" << a << "' < '" << b << "' is " << (a < b) << " and the other way " << (b < a));
      QualifiedName::AlphabeticalComparator less;
      CHECK(less(a, b) == (join(all[i]) < join(all[j])), "'" << a << "' is alphabetically before '" << b << "': " << less(a, b));
      for (std::size_t k = 0; k < n; ++k)
        CHECK(!(a < b && b < names[k]) || a < names[k], "the order is not transitive");
      // a name belongs to a group when the name of the group is the beginning of its groups
      auto &p = all[i], &g = all[j];
      bool  in = g.size() < p.size() && std::equal(g.begin(), g.end(), p.begin());
      CHECK(a.belongsInGroup(b) == in, "'" << a << "' belongs in '" << b << "': " << a.belongsInGroup(b));
    }
  std::map<QualifiedName, std::size_t>           m;
  std::unordered_map<QualifiedName, std::size_t> u;
  std::map<std::string, std::size_t>             model;
  for (std::size_t k = 0; k < n; ++k) {
    m[names[k]]            = k;
    u[names[k]]            = k;
    model[join(all[k])] = k;
  }
  CHECK(m.size() == model.size() && u.size() == model.size(), m.size() << " and " << u.size() << " entries for " << model.size() << " names");
  for (auto& e : model) {
    QualifiedName q(e.first);
    CHECK(m.count(q) && m[q] == e.second && u.count(q) && u[q] == e.second, "'" << q << "' is not found again");
  }
}
