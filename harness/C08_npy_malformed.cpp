// C08: a damaged or truncated numpy file is refused; it never yields made-up data, and never brings the process down
#include "NdArray/NdArray.h"
#include "NdArray/io/Npy.h"
#include "NdArray/io/NpyMmap.h"
#include "common/npy_ref.h"
#include "common/pbt.h"
#include <ElementsKernel/Exception.h>
#include <fstream>
#include <unistd.h>

using Euclid::NdArray::NdArray;
using pbt::Case;
namespace nd = Euclid::NdArray;
typedef std::vector<std::size_t> Shape;

namespace {
// Keeps what the file asks for within the memory there is
bool modest(const std::string& f) {
  if (f.size() < 12)
    return true;
  std::size_t hl = 0, w = f[6] == 1 ? 2 : 4;
  for (std::size_t k = 0; k < w; ++k)
    hl |= static_cast<std::size_t>(static_cast<unsigned char>(f[8 + k])) << (8 * k);
  if (hl > (1u << 20))
    return false;
  long double n = 1;
  std::size_t at = f.find("shape"), v = 0;
  bool        in = false;
  for (std::size_t k = at == std::string::npos ? 8 : at; k <= std::min(f.size(), 8 + w + hl); ++k) {
    if (k < f.size() && f[k] == '-')
      return false;
    if (k < f.size() && isdigit(static_cast<unsigned char>(f[k]))) {
      if (v > (1u << 24))
        return false;
      v  = v * 10 + static_cast<std::size_t>(f[k] - '0');
      in = true;
    } else if (in) {
      n *= std::max<std::size_t>(v, 1);
      v  = 0;
      in = false;
    }
  }
  return n < (1 << 22);
}

std::string file(Case& c, std::size_t& n_bytes) {
  Shape s(c.n(1, 3));
  std::size_t n = 1;
  for (auto& v : s) {
    v = c.n(1, 6);
    n *= v;
  }
  std::vector<std::string> names;
  if (c.b(1, 4))
    for (std::size_t k = c.n(1, 3); k > 0; --k)
      names.push_back("f" + std::to_string(k));
  n *= std::max<std::size_t>(1, names.size());
  std::string data(n * 4, 0);
  for (auto& ch : data)
    ch = static_cast<char>(c.n(1, 255));
  n_bytes = data.size();
  if (c.b()) {
    NdArray<std::int32_t> a = names.empty() ? NdArray<std::int32_t>(s) : NdArray<std::int32_t>(s, names);
    std::size_t           k = 0;
    for (auto& v : a) {
      std::memcpy(&v, data.data() + 4 * k, 4);
      ++k;
    }
    std::ostringstream o;
    nd::writeNpy(o, a);
    return o.str();
  }
  int major = static_cast<int>(c.n(1, 3));
  return ref::encode("<i4", names, s, false, data, major, c.b(1, 10) ? c.n(1, major == 1 ? 60000 : 150000) : 0);
}

template <typename T>
void accepted(const NdArray<T>& a, const std::string& f, const char* how) {
  std::size_t n = 1;
  for (auto v : a.shape())
    n *= v;
  CHECK(a.size() == n, how << ": size " << a.size() << " for shape " << pbt::str(a.shape()));
  CHECK(n * sizeof(T) <= f.size(), how << ": " << n << " elements out of " << f.size() << " bytes");
  T x{};
  for (auto v : a)
    x = static_cast<T>(x ^ v);
  volatile T sink = x;
  (void)sink;
}
}  // namespace

PBT_TEST(truncated, pbt::cases(10000, 200000)) {
  std::size_t n_bytes = 0;
  std::string f   = file(c, n_bytes);
  std::size_t cut = c.b() ? c.n(f.size() - n_bytes, f.size() - 1) : c.n(0, f.size() - 1);
  std::string t   = f.substr(0, cut);
  c.describe([&](std::ostream& o) { o << "the first " << cut << " of " << f.size() << " bytes, data from " << f.size() - n_bytes; });
  c.nontrivial();
  std::istringstream in(t);
  CHECK_THROWS(nd::readNpy<std::int32_t>(in), Elements::Exception, "truncated file");
  if (cut > 0 && c.b(1, 4)) {
    std::string p = pbt::scratchDir() + "/t_" + std::to_string(getpid()) + ".npy";
    std::ofstream(p, std::ios::binary) << t;
    CHECK_THROWS(nd::mmapNpy<std::int32_t>(p, boost::iostreams::mapped_file_base::readonly), Elements::Exception, "truncated file, mapped");
    unlink(p.c_str());
  }
}

PBT_TEST(damaged, pbt::cases(20000, 400000)) {
  std::size_t n_bytes = 0;
  std::string f    = file(c, n_bytes);
  std::size_t head = f.size() - n_bytes;
  std::size_t k    = c.n(1, 4);
  static const std::vector<std::string> bits{"'", "(", ")", "[", "]", ",", "{", "}", ":", "", " ", "True", "False", "'shape': ", "'descr': ", "'fortran_order': ",
                                             "shape", "'<i4'", "''", "'<'", "()", "(,)", "(1", "0", "7", "()", "[]", "[('a', '<i4')]", "\n", "\\"};
  for (; k > 0; --k) {
    std::size_t at = c.n(0, head - 1), len = c.n(0, 12);
    switch (c.n(0, 3)) {
    case 0: f[at] = static_cast<char>(c.n(0, 255)); break;
    case 1: f.replace(at, std::min(len, f.size() - at), c.pick(bits)); break;
    case 2: f.erase(at, std::min(len, f.size() - at)); break;
    default: f.insert(at, c.pick(bits)); break;
    }
    head = std::min(head, f.size());
    if (head == 0)
      break;
  }
  if (!modest(f))
    throw pbt::Discard();
  c.describe([&](std::ostream& o) { o << "file " << f; });
  bool ok = false;
  try {
    std::istringstream in(f);
    auto               a = nd::readNpy<std::int32_t>(in);
    ok                   = true;
    accepted(a, f, "read");
  } catch (const pbt::Failure&) {
    throw;
  } catch (const std::exception&) {
    c.nontrivial();
  }
  c.label(ok ? "accepted" : "refused");
  // unaligned elements in a mapping are not judged (they work on the usual processors)
  std::size_t hl = 0;
  for (std::size_t k = 0; f.size() >= 12 && k < (f[6] == 1 ? 2u : 4u); ++k)
    hl |= static_cast<std::size_t>(static_cast<unsigned char>(f[8 + k])) << (8 * k);
  if (!f.empty() && ((f.size() >= 12 && f[6] == 1 ? 10 : 12) + hl) % 4 == 0 && c.b(1, 4)) {
    std::string p = pbt::scratchDir() + "/d_" + std::to_string(getpid()) + ".npy";
    std::ofstream(p, std::ios::binary) << f;
    try {
      const auto a = nd::mmapNpy<std::int32_t>(p, boost::iostreams::mapped_file_base::readonly);
      accepted(a, f, "mapped");
      CHECK(ok, "mapped although reading refuses it");
    } catch (const pbt::Failure&) {
      throw;
    } catch (const std::exception&) {
      CHECK(!ok, "read although mapping refuses it");
    }
    unlink(p.c_str());
  }
}

// The number of elements in the header is more than what can be counted, but wraps around to what the file has
PBT_TEST(wrapped_size, pbt::cases(4000, 60000)) {
  std::size_t small = c.n(0, 8);
  // odd * inverse == 1 modulo 2^64, by Newton's method
  std::size_t odd = 2 * c.n(1, c.b() ? 100 : (1ul << 40)) + 1, inverse = odd;
  for (int k = 0; k < 6; ++k)
    inverse *= 2 - odd * inverse;
  Shape       s;
  std::size_t fields = 0;
  switch (c.n(0, 3)) {
  case 0: s = {odd, small * inverse}; break;
  case 1: s = {odd, inverse, small}; break;
  case 2: {  // the number of elements can be counted, but not the number of bytes
    s = {std::size_t{1} << c.n(31, 32), std::size_t{1} << c.n(31, 31)};
    break;
  }
  default: {  // nor with the fields
    s      = {std::size_t{1} << 31, std::size_t{1} << c.n(28, 30)};
    fields = 16;
    break;
  }
  }
  // nothing beyond what fits is asked for
  long double n = std::max<std::size_t>(fields, 1);
  bool        zero = false;
  for (auto v : s) {
    n *= v;
    zero = zero || v == 0;
  }
  if (zero || n * 4 < 18446744073709551616.0L)
    throw pbt::Discard();
  std::vector<std::string> names;
  for (std::size_t k = 0; k < fields; ++k)
    names.push_back("f" + std::to_string(k));
  std::size_t wrapped = std::max<std::size_t>(fields, 1);
  for (auto v : s)
    wrapped *= v;
  std::string f = ref::encode("<i4", names, s, false, std::string(4 * (wrapped < 64 ? wrapped : c.n(0, 8)), 'x'), static_cast<int>(c.n(1, 3)));
  c.describe([&](std::ostream& o) { o << "file " << f; });
  c.nontrivial();
  bool refused = false;
  try {
    std::istringstream in(f);
    nd::readNpy<std::int32_t>(in);
  } catch (const std::exception&) {
    refused = true;
  }
  CHECK(refused, "an array with more elements than can be counted was read, shape " << pbt::str(s));
  std::string p = pbt::scratchDir() + "/w_" + std::to_string(getpid()) + ".npy";
  std::ofstream(p, std::ios::binary) << f;
  refused = false;
  try {
    const auto a = nd::mmapNpy<std::int32_t>(p, boost::iostreams::mapped_file_base::readonly);
  } catch (const std::exception&) {
    refused = true;
  }
  unlink(p.c_str());
  CHECK(refused, "an array with more elements than can be counted was mapped, shape " << pbt::str(s));
}

// Well-formed, but not what is asked for
PBT_TEST(something_else, pbt::cases(8000, 100000)) {
  std::size_t n_bytes = 0;
  std::string f = file(c, n_bytes), what;
  auto        replace = [&](const std::string& from, const std::string& to) {
    std::size_t n = 0;
    for (auto at = f.find(from); at != std::string::npos; at = f.find(from, at + to.size()), ++n)
      f.replace(at, from.size(), to);
    if (n == 0)
      throw pbt::Discard();
    what = from + " replaced with " + to;
  };
  switch (c.n(0, 4)) {
  case 0: {
    std::size_t k = c.n(0, 5);
    char        ch = static_cast<char>(c.n(0, 255));
    if (ch == f[k])
      ch = static_cast<char>(ch ^ 1);
    f[k] = ch;
    what = "magic byte " + std::to_string(k);
    break;
  }
  case 1: {
    if (c.b())
      f[7] = static_cast<char>(c.n(1, 255));
    else
      f[6] = static_cast<char>(c.n(31, 255));
    what = "version " + std::to_string(static_cast<unsigned char>(f[6])) + "." + std::to_string(static_cast<unsigned char>(f[7]));
    break;
  }
  case 2: replace("'<i4'", c.pick<std::string>({"'<i2'", "'<i8'", "'<u4'", "'<f4'", "'<f8'", "'<c8'", "'<M8'", "'<U4'", "'|S4'", "'|b1'", "'|i1'", "'|O'"})); break;
  case 3: replace("'<i4'", "'>i4'"); break;
  default: replace("'fortran_order': False", "'fortran_order': True "); break;
  }
  f += std::string(n_bytes, 'x');
  c.describe([&](std::ostream& o) { o << what << ", file " << f; });
  c.nontrivial();
  std::istringstream in(f);
  CHECK_THROWS(nd::readNpy<std::int32_t>(in), Elements::Exception, what);
  if (c.b(1, 3)) {
    std::string p = pbt::scratchDir() + "/e_" + std::to_string(getpid()) + ".npy";
    std::ofstream(p, std::ios::binary) << f;
    CHECK_THROWS(nd::mmapNpy<std::int32_t>(p, boost::iostreams::mapped_file_base::readonly), Elements::Exception, what << ", mapped");
    unlink(p.c_str());
  }
}

// Any bytes
PBT_TEST(any_bytes, pbt::cases(10000, 100000)) {
  std::string f;
  if (!c.b(1, 8))
    f = std::string("\x93NUMPY") + static_cast<char>(c.n(0, 4)) + '\0';
  std::size_t n = c.len(0, 120);
  if (!f.empty()) {
    f += static_cast<char>(n);
    f += std::string(f[6] == 1 ? 1 : 3, '\0');
  }
  for (; n > 0; --n)
    f += static_cast<char>(c.b(1, 6) ? c.n(0, 255) : static_cast<std::size_t>(c.pick(std::string("{}()[]':,. 0123desrhapeftuo<>i48"))));
  if (!modest(f))
    throw pbt::Discard();
  c.describe([&](std::ostream& o) { o << "bytes " << f; });
  c.nontrivial();
  try {
    std::istringstream in(f);
    auto               a = nd::readNpy<std::int32_t>(in);
    accepted(a, f, "read");
  } catch (const pbt::Failure&) {
    throw;
  } catch (const std::exception&) {
  }
}
