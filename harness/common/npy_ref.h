// Independent reader and writer of the numpy format, after numpy.lib.format
#ifndef NPY_REF_H
#define NPY_REF_H
#include "common/pbt.h"
#include <cctype>

namespace ref {
typedef std::vector<std::size_t> Shape;

struct Npy {
  std::string              kind;  // e.g. "<f8"
  std::vector<std::string> fields;
  bool                     fortran = false;
  Shape                    shape;
  std::string              data;
  std::size_t              offset = 0;
};

// Parser of the python literal in the header
struct Lit {
  const std::string& s;
  std::size_t        p = 0;
  explicit Lit(const std::string& str) : s(str) {}
  [[noreturn]] void bad(const char* what) { throw pbt::Failure(std::string("the npy header is no python literal (") + what + "): " + s); }
  void ws() {
    while (p < s.size() && (s[p] == ' ' || s[p] == '\n'))
      ++p;
  }
  bool is(char ch) {
    ws();
    return p < s.size() && s[p] == ch;
  }
  void eat(char ch) {
    if (!is(ch))
      bad("punctuation");
    ++p;
  }
  std::string string() {
    eat('\'');
    std::string r;
    while (p < s.size() && s[p] != '\'')
      r += s[p++];
    eat('\'');
    return r;
  }
  std::size_t integer() {
    ws();
    if (p >= s.size() || !isdigit(static_cast<unsigned char>(s[p])))
      bad("integer");
    std::size_t v = 0;
    while (p < s.size() && isdigit(static_cast<unsigned char>(s[p])))
      v = v * 10 + static_cast<std::size_t>(s[p++] - '0');
    return v;
  }
};

inline Npy decode(const std::string& f) {
  Npy r;
  if (f.size() < 10 || f.compare(0, 6, "\x93NUMPY") != 0)
    throw pbt::Failure("no npy magic");
  int         major = static_cast<unsigned char>(f[6]), minor = static_cast<unsigned char>(f[7]);
  std::size_t hl = 0, at = 8, w = major == 1 ? 2 : 4;
  if (major < 1 || major > 3 || minor != 0)
    throw pbt::Failure("npy version " + std::to_string(major) + "." + std::to_string(minor));
  for (std::size_t k = 0; k < w; ++k)
    hl |= static_cast<std::size_t>(static_cast<unsigned char>(f.at(at + k))) << (8 * k);
  at += w;
  if (at + hl > f.size())
    throw pbt::Failure("npy header longer than the file");
  std::string h = f.substr(at, hl);
  r.offset      = at + hl;
  if (r.offset % 64 != 0)
    throw pbt::Failure("npy data not aligned to 64 bytes but at " + std::to_string(r.offset));
  if (h.empty() || h.back() != '\n')
    throw pbt::Failure("npy header does not end in a newline");
  r.data = f.substr(r.offset);
  Lit                   l(h);
  std::set<std::string> keys;
  l.eat('{');
  while (!l.is('}')) {
    std::string k = l.string();
    l.eat(':');
    keys.insert(k);
    if (k == "descr") {
      if (l.is('[')) {
        l.eat('[');
        while (!l.is(']')) {
          l.eat('(');
          r.fields.push_back(l.string());
          l.eat(',');
          std::string t = l.string();
          l.eat(')');
          if (!r.kind.empty() && t != r.kind)
            throw pbt::Failure("mixed types in " + h);
          r.kind = t;
          if (l.is(','))
            l.eat(',');
        }
        l.eat(']');
      } else {
        r.kind = l.string();
      }
    } else if (k == "fortran_order") {
      l.ws();
      if (h.compare(l.p, 4, "True") == 0) {
        r.fortran = true;
        l.p += 4;
      } else if (h.compare(l.p, 5, "False") == 0) {
        l.p += 5;
      } else {
        l.bad("boolean");
      }
    } else if (k == "shape") {
      l.eat('(');
      while (!l.is(')')) {
        r.shape.push_back(l.integer());
        if (l.is(','))
          l.eat(',');
      }
      l.eat(')');
    } else {
      l.bad("unknown key");
    }
    if (l.is(','))
      l.eat(',');
  }
  l.eat('}');
  l.ws();
  if (l.p != h.size())
    l.bad("trailing text");
  if (keys.size() != 3)
    l.bad("missing key");
  return r;
}

// As numpy writes it (its header ends in ", }")
inline std::string encode(const std::string& kind, const std::vector<std::string>& fields, const Shape& shape, bool fortran,
                          const std::string& data, int major, std::size_t padding = 0) {
  std::string h = "{'descr': ";
  if (fields.empty()) {
    h += "'" + kind + "'";
  } else {
    h += "[";
    for (std::size_t k = 0; k < fields.size(); ++k)
      h += std::string(k ? ", " : "") + "('" + fields[k] + "', '" + kind + "')";
    h += "]";
  }
  h += std::string(", 'fortran_order': ") + (fortran ? "True" : "False") + ", 'shape': (";
  for (std::size_t k = 0; k < shape.size(); ++k)
    h += std::string(k ? ", " : "") + std::to_string(shape[k]);
  h += std::string(shape.size() == 1 ? "," : "") + "), }";
  h += std::string(padding, ' ');
  std::size_t pre = major == 1 ? 10 : 12;
  while ((pre + h.size() + 1) % 64 != 0)
    h += ' ';
  h += '\n';
  std::string f = "\x93NUMPY";
  f += static_cast<char>(major);
  f += '\0';
  for (std::size_t k = 0; k < (major == 1 ? 2u : 4u); ++k)
    f += static_cast<char>((h.size() >> (8 * k)) & 0xff);
  return f + h + data;
}

template <typename T>
struct Kind;
#define NPY_KIND(T, S)                                                                                                 \
  template <>                                                                                                          \
  struct Kind<T> {                                                                                                     \
    static std::string numpy() { return S; }                                                                           \
  }
NPY_KIND(std::int8_t, "|i1");
NPY_KIND(std::int16_t, "<i2");
NPY_KIND(std::int32_t, "<i4");
NPY_KIND(std::int64_t, "<i8");
NPY_KIND(std::uint8_t, "|u1");
NPY_KIND(std::uint16_t, "<u2");
NPY_KIND(std::uint32_t, "<u4");
NPY_KIND(std::uint64_t, "<u8");
NPY_KIND(float, "<f4");
NPY_KIND(double, "<f8");
// numpy knows b and B as other names of i1 and u1, and ignores the byte order of single bytes
inline std::string canonical(const std::string& k) {
  std::string t = k.size() > 1 ? k.substr(1) : k;
  if (t == "b")
    t = "i1";
  if (t == "B")
    t = "u1";
  return (t == "i1" || t == "u1") ? "|" + t : k.substr(0, 1) + t;
}
}  // namespace ref
#endif
