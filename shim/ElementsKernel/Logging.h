// Stand-in for Elements::Logging: formats every message (so that broken operands are noticed) and drops it.
#pragma once
#include <sstream>
#include <string>
namespace Elements {
class Logging {
public:
  static Logging getLogger(const std::string& = "") { return Logging(); }
  class Stream {
  public:
    template <typename T>
    Stream& operator<<(const T& v) { m_s << v; return *this; }
    Stream& operator<<(std::ostream& (*f)(std::ostream&)) { f(m_s); return *this; }
    Stream() = default;
    Stream(Stream&&) = default;
  private:
    std::ostringstream m_s;
  };
  Stream debug() const { return {}; }
  Stream info() const { return {}; }
  Stream warn() const { return {}; }
  Stream error() const { return {}; }
  Stream fatal() const { return {}; }
  void   debug(const std::string&) const {}
  void   info(const std::string&) const {}
  void   warn(const std::string&) const {}
  void   error(const std::string&) const {}
  void   fatal(const std::string&) const {}
};
}  // namespace Elements
