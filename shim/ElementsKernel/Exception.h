// Minimal stand-in for the Elements framework's Exception (the framework is not installed here).
// Semantics kept: streamable temporary, string/char* constructor, inheritable constructors, exit code.
#pragma once
#include <exception>
#include <sstream>
#include <string>
#include <utility>
#include "ElementsKernel/Export.h"
namespace Elements {
enum class ExitCode : int { OK = 0, NOT_OK = 1 };
class Exception : public std::exception {
public:
  explicit Exception(ExitCode e = ExitCode::NOT_OK) : m_exit_code(e) {}
  explicit Exception(const char* m, ExitCode e = ExitCode::NOT_OK) : m_msg(m), m_exit_code(e) {}
  explicit Exception(const std::string& m, ExitCode e = ExitCode::NOT_OK) : m_msg(m), m_exit_code(e) {}
  template <typename... Args>
  explicit Exception(const char* fmt, const Args&... ) : m_msg(fmt), m_exit_code(ExitCode::NOT_OK) {}
  Exception(const Exception&) = default;
  Exception(Exception&&)      = default;
  ~Exception() noexcept override = default;
  const char* what() const noexcept override { return m_msg.c_str(); }
  ExitCode    exitCode() const noexcept { return m_exit_code; }
  void        appendMessage(const std::string& m) { m_msg += m; }
protected:
  std::string m_msg;
  ExitCode    m_exit_code;
};
// SFINAE over everything derived from Exception, keeps the dynamic type in `throw X() << ..`
template <typename E, typename T,
          typename = typename std::enable_if<std::is_base_of<Exception, typename std::decay<E>::type>::value>::type>
auto operator<<(E&& e, const T& v) -> typename std::remove_reference<E>::type {
  std::ostringstream s;
  s << v;
  e.appendMessage(s.str());
  return std::forward<E>(e);
}
}  // namespace Elements
