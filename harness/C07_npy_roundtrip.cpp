// C07: arrays written in the numpy format are what numpy would read, and come back unchanged, streamed or mapped
#include "NdArray/NdArray.h"
#include "NdArray/io/Npy.h"
#include "NdArray/io/NpyMmap.h"
#include "common/npy_ref.h"
#include "common/pbt.h"
#include <ElementsKernel/Exception.h>
#include <fstream>
#include <unistd.h>

using Euclid::NdArray::NdArray;
using pbt::Case;
namespace nd = Euclid::NdArray;
typedef std::vector<std::size_t> Shape;

namespace {

std::size_t product(const Shape& s) {
  std::size_t p = 1;
  for (auto v : s)
    p *= v;
  return p;
}
Shape coords(std::size_t i, const Shape& s) {
  Shape r(s.size());
  for (std::size_t k = s.size(); k-- > 0;) {
    r[k] = i % s[k];
    i /= s[k];
  }
  return r;
}
std::string path(const char* name) { return pbt::scratchDir() + "/" + name + "_" + std::to_string(getpid()) + ".npy"; }
std::string slurp(const std::string& p) {
  std::ifstream      f(p, std::ios::binary);
  std::ostringstream s;
  s << f.rdbuf();
  return s.str();
}
void spit(const std::string& p, const std::string& d) { std::ofstream(p, std::ios::binary) << d; }

template <typename T>
typename std::enable_if<std::is_integral<T>::value, T>::type value(Case& c) {
  switch (c.n(0, 3)) {
  case 0: return static_cast<T>(c.n(0, 5));
  case 1: return std::numeric_limits<T>::max();
  case 2: return std::numeric_limits<T>::min();
  default: return static_cast<T>(c.draw(0));
  }
}
template <typename T>
typename std::enable_if<!std::is_integral<T>::value, T>::type value(Case& c) {
  switch (c.n(0, 6)) {
  case 0: return static_cast<T>(c.i(-5, 5));
  case 1: return std::numeric_limits<T>::max();
  case 2: return std::numeric_limits<T>::denorm_min();
  case 3: return std::numeric_limits<T>::infinity();
  case 4: return std::numeric_limits<T>::quiet_NaN();
  case 5: return static_cast<T>(-0.);
  default: return static_cast<T>(c.real(-1e6, 1e6));
  }
}
template <typename T>
std::string bytes(const std::vector<T>& v) {
  return std::string(reinterpret_cast<const char*>(v.data()), v.size() * sizeof(T));
}

template <typename T>
struct Sample {
  NdArray<T>               a;
  Shape                    shape;  // with the axis of the names
  std::vector<std::string> names;
  std::vector<T>           flat;
};

std::vector<std::string> genNames(Case& c) {
  std::vector<std::string> r;
  std::size_t              n = c.n(1, 4);
  if (c.b(1, 60)) {
    // a header beyond one page, or beyond 64 kB
    n = c.b(1, 3) ? c.n(3000, 6000) : c.n(100, 600);
    for (std::size_t k = 0; k < n; ++k)
      r.push_back("field_" + std::to_string(k));
    c.label("long header");
    return r;
  }
  while (r.size() < n) {
    std::string s = c.pick({std::string("a"), std::string("b"), std::string("flux"), std::string("FLUX_ERR"), std::string("shape"), std::string("descr"), std::string("fortran_order"), std::string("flux[uJy]"),
                            std::string("mag (AB)"), std::string("x, y"), std::string("z:2"), std::string("{q}"), std::string("a b")});
    if (std::find(r.begin(), r.end(), s) == r.end())
      r.push_back(s);
  }
  return r;
}

template <typename T>
Sample<T> gen(Case& c, bool views) {
  bool  named = c.b(1, 3);
  Shape s;
  for (std::size_t k = c.n(named ? 0 : 1, 4); k > 0; --k)
    s.push_back(c.b(1, 15) ? c.n(6, 70) : c.n(1, 5));
  if (product(s) > 2000)
    throw pbt::Discard();
  std::vector<std::string> names;
  if (named)
    names = genNames(c);
  bool large = names.size() < 10 && !s.empty() && c.b(1, 200);
  if (large) {
    s.resize(std::min<std::size_t>(s.size(), 2));
    for (auto& v : s)
      v = std::min<std::size_t>(v, 4);
    s[c.n(0, s.size() - 1)] = c.n(1000, 40000);
    c.label("large");
  }
  Shape full = s;
  if (named)
    full.push_back(names.size());
  std::vector<T> d(product(full));
  std::vector<T> few;
  for (std::size_t k = 0; k < 97; ++k)
    if (d.size() > 1000)
      few.push_back(value<T>(c));
  for (std::size_t k = 0; k < d.size(); ++k)
    d[k] = few.empty() ? value<T>(c) : few[(k * 2654435761ull >> 7) % few.size()];
  Sample<T> r{named ? NdArray<T>(s, names, d) : NdArray<T>(s, d), full, names, d};
  while (views && !named && r.shape.size() > 1 && c.b(1, 4)) {
    bool           last = c.b();
    std::size_t    at   = c.n(0, (last ? r.shape.back() : r.shape.front()) - 1);
    std::vector<T> f;
    for (std::size_t k = 0; k < r.flat.size(); ++k) {
      auto co = coords(k, r.shape);
      if ((last ? co.back() : co.front()) == at)
        f.push_back(r.flat[k]);
    }
    NdArray<T> v = last ? r.a.rslice(at) : r.a.slice(at);
    r.a          = v;
    r.flat       = f;
    r.shape      = last ? Shape(r.shape.begin(), r.shape.end() - 1) : Shape(r.shape.begin() + 1, r.shape.end());
    c.label("view");
  }
  c.describe([&](std::ostream& o) { o << sizeof(T) << "-byte elements, shape " << pbt::str(r.shape) << " names " << (names.size() > 100 ? std::to_string(names.size()) : pbt::str(names)); });
  c.label("named", named);
  c.nontrivial(r.shape.size() > 1 || named);
  return r;
}

template <typename T>
void same(const NdArray<T>& a, const Shape& shape, const std::vector<std::string>& names, const std::vector<T>& flat, const char* what) {
  CHECK(a.shape() == shape, what << ": shape " << pbt::str(a.shape()) << " instead of " << pbt::str(shape));
  CHECK(a.attributes() == names, what << ": names " << pbt::str(a.attributes()) << " instead of " << pbt::str(names));
  for (std::size_t k = 0; k < flat.size(); ++k) {
    T v = a.at(coords(k, shape));
    CHECK(std::memcmp(&v, &flat[k], sizeof(T)) == 0, what << ": element " << k << " differs");
  }
}

template <typename T>
void decoded(const std::string& file, const Shape& shape, const std::vector<std::string>& names, const std::vector<T>& flat) {
  ref::Npy n = ref::decode(file);
  Shape    s = shape;
  if (!names.empty())
    s.pop_back();
  CHECK(ref::canonical(n.kind) == ref::Kind<T>::numpy(), "numpy sees type " << n.kind << " instead of " << ref::Kind<T>::numpy());
  CHECK(!n.fortran, "numpy sees Fortran order");
  CHECK(n.shape == s, "numpy sees shape " << pbt::str(n.shape) << " instead of " << pbt::str(s));
  CHECK(n.fields == names, "numpy sees fields " << pbt::str(n.fields) << " instead of " << pbt::str(names));
  CHECK(n.data == bytes(flat), "numpy sees other data (" << n.data.size() << " bytes)");
}

template <typename T>
void roundtrip(Case& c) {
  auto s = gen<T>(c, true);
  std::ostringstream out;
  nd::writeNpy(out, s.a);
  decoded(out.str(), s.shape, s.names, s.flat);
  std::istringstream in(out.str());
  same(nd::readNpy<T>(in), s.shape, s.names, s.flat, "read from a stream");
  if (c.b(1, 4)) {
    auto p = path("w");
    nd::writeNpy(boost::filesystem::path(p), s.a);
    CHECK(slurp(p) == out.str(), "a file and a stream get other bytes");
    same(nd::readNpy<T>(boost::filesystem::path(p)), s.shape, s.names, s.flat, "read from a file");
    {
      const NdArray<T> m = nd::mmapNpy<T>(p, boost::iostreams::mapped_file_base::readonly);
      same(m, s.shape, s.names, s.flat, "mapped read-only");
    }
    std::size_t    k = c.n(0, s.flat.size() - 1);
    T              v = value<T>(c);
    std::vector<T> changed = s.flat;
    changed[k]             = v;
    {
      NdArray<T> m           = nd::mmapNpy<T>(p, boost::iostreams::mapped_file_base::priv);
      m.at(coords(k, s.shape)) = v;
      same(m, s.shape, s.names, changed, "mapped privately");
    }
    CHECK(slurp(p) == out.str(), "a private mapping changed the file");
    {
      NdArray<T> m           = nd::mmapNpy<T>(p);
      m.at(coords(k, s.shape)) = v;
      same(m, s.shape, s.names, changed, "mapped for writing");
    }
    decoded(slurp(p), s.shape, s.names, changed);
    same(nd::readNpy<T>(boost::filesystem::path(p)), s.shape, s.names, changed, "read after a mapped write");
    unlink(p.c_str());
    c.label("files");
  }
}

// Files as numpy writes them
template <typename T>
void fromNumpy(Case& c) {
  auto  s = gen<T>(c, false);
  Shape sh = s.shape;
  if (!s.names.empty())
    sh.pop_back();
  std::size_t how   = c.weighted({4, 1, 1, 1});
  std::string kind  = ref::Kind<T>::numpy();
  int         major = static_cast<int>(c.n(s.names.size() > 1000 ? 2 : 1, 3));
  // as much space after the literal as one likes
  std::size_t padding = c.b(1, 20) ? (major == 1 ? c.n(1, 20000) : c.n(1, 200000)) : 0;
  if (how == 0) {
    if (padding && major == 1 && s.names.size() > 100)
      padding = 0;
    std::istringstream in(ref::encode(kind, s.names, sh, false, bytes(s.flat), major, padding));
    same(nd::readNpy<T>(in), s.shape, s.names, s.flat, "file of numpy");
  } else if (how == 1) {
    if (sizeof(T) == 1)
      throw pbt::Discard();
    std::istringstream in(ref::encode(">" + kind.substr(1), s.names, sh, false, bytes(s.flat), major));
    CHECK_THROWS(nd::readNpy<T>(in), Elements::Exception, "big endian data");
  } else if (how == 2) {
    std::istringstream in(ref::encode(kind, s.names, sh, true, bytes(s.flat), major));
    CHECK_THROWS(nd::readNpy<T>(in), Elements::Exception, "Fortran order");
  } else {
    std::string other = c.pick({std::string("|i1"), std::string("<i2"), std::string("<i4"), std::string("<i8"), std::string("|u1"), std::string("<u2"), std::string("<u4"), std::string("<u8"),
                                std::string("<f4"), std::string("<f8"), std::string("<c8"), std::string("|b1"), std::string("<M8"), std::string("<U4"), std::string("|S8")});
    if (other == kind)
      throw pbt::Discard();
    std::string data = bytes(s.flat) + std::string(16 * s.flat.size(), 'x');
    std::istringstream in(ref::encode(other, s.names, sh, false, data, major));
    CHECK_THROWS(nd::readNpy<T>(in), Elements::Exception, "type " << other << " read as " << kind);
  }
}

// Mapped files that are created, filled and grown
template <typename T>
void mapped(Case& c) {
  std::vector<std::string> names;
  if (c.b(1, 3))
    names = genNames(c);
  Shape s(c.n(1, 3));
  for (auto& v : s)
    v = names.size() > 10 ? c.n(1, 2) : c.n(1, 5);
  if (names.size() < 10 && c.b(1, 100))
    s[0] = c.n(1000, 9999);
  Shape full = s;
  if (!names.empty())
    full.push_back(names.size());
  auto        p   = path("m");
  std::size_t cap = c.b(1, 3) ? 0 : c.n(1, 4) * (c.b(1, 20) ? 1024 * 1024 : 1024);
  c.describe([&](std::ostream& o) { o << sizeof(T) << "-byte elements, create " << pbt::str(s) << " names " << (names.size() > 100 ? std::to_string(names.size()) : pbt::str(names)) << " max_size " << cap; });
  std::vector<T> flat(product(full), T{});
  unlink(p.c_str());
  {
    NdArray<T>  a      = nd::createMmapNpy<T>(p, s, names, cap);
    std::size_t limit  = std::max(cap, slurp(p).size());
    std::size_t header = slurp(p).size() - flat.size() * sizeof(T);
    std::size_t steps  = c.len(1, 8);
    for (std::size_t step = 0; step < steps; ++step) {
      if (c.b(2, 3)) {
        std::size_t k          = c.n(0, flat.size() - 1);
        T           v          = value<T>(c);
        a.at(coords(k, full)) = v;
        flat[k]                = v;
      } else {
        Shape more = full;
        more[0]    = names.size() > 10 ? 1 : c.n(1, 20);
        std::vector<T> d(product(more));
        for (auto& v : d)
          v = value<T>(c);
        NdArray<T>  add(more, d);
        std::size_t need = header + (flat.size() + d.size()) * sizeof(T);
        c.describe([&](std::ostream& o) { o << "  append " << pbt::str(more); });
        if (need > limit) {
          CHECK_THROWS(a.concatenate(add), Elements::Exception, "append beyond the maximum size");
          c.label("append refused");
        } else {
          bool refused = false;
          try {
            a.concatenate(add);
          } catch (const Elements::Exception&) {
            refused = true;  // the header may not have room for a longer shape
          }
          if (refused) {
            CHECK(std::to_string(full[0] + more[0]).size() > std::to_string(full[0]).size(), "append refused although there is room");
            c.label("append refused, no room in the header");
          } else {
            full[0] += more[0];
            flat.insert(flat.end(), d.begin(), d.end());
            c.nontrivial();
            c.label("appended");
          }
        }
      }
      same(a, full, names, flat, "mapped array");
    }
  }
  decoded(slurp(p), full, names, flat);
  same(nd::readNpy<T>(boost::filesystem::path(p)), full, names, flat, "read after writing through the mapping");
  {
    const NdArray<T> m = nd::mmapNpy<T>(p, boost::iostreams::mapped_file_base::readonly);
    same(m, full, names, flat, "mapped again");
  }
  unlink(p.c_str());
}

}  // namespace

#define ALL(F, N, Q, TH)                                                                                               \
  PBT_TEST(N, pbt::cases(Q, TH)) {                                                                                     \
    switch (c.n(0, 9)) {                                                                                               \
    case 0: return F<double>(c);                                                                                       \
    case 1: return F<float>(c);                                                                                        \
    case 2: return F<std::int8_t>(c);                                                                                  \
    case 3: return F<std::int16_t>(c);                                                                                 \
    case 4: return F<std::int32_t>(c);                                                                                 \
    case 5: return F<std::int64_t>(c);                                                                                 \
    case 6: return F<std::uint8_t>(c);                                                                                 \
    case 7: return F<std::uint16_t>(c);                                                                                \
    case 8: return F<std::uint32_t>(c);                                                                                \
    default: return F<std::uint64_t>(c);                                                                               \
    }                                                                                                                  \
  }
ALL(roundtrip, round_trip, 10000, 200000)
ALL(fromNumpy, from_numpy, 10000, 200000)
ALL(mapped, mapped_files, 4000, 80000)
