#pragma once
#include <boost/filesystem.hpp>
#include <boost/filesystem/fstream.hpp>
#include <string>
namespace Elements {
class TempPath {
public:
  explicit TempPath(const std::string& motif = "shim-%%%%-%%%%-%%%%-%%%%", const std::string& = "")
      : m_path(boost::filesystem::temp_directory_path() / boost::filesystem::unique_path(motif.empty() ? "shim-%%%%-%%%%-%%%%" : motif)) {}
  virtual ~TempPath() { boost::system::error_code e; boost::filesystem::remove_all(m_path, e); }
  boost::filesystem::path path() const { return m_path; }
  std::string motif() const { return ""; }
protected:
  boost::filesystem::path m_path;
};
class TempDir : public TempPath {
public:
  explicit TempDir(const std::string& m = "shim-%%%%-%%%%-%%%%-%%%%", const std::string& = "") : TempPath(m) { boost::filesystem::create_directories(m_path); }
};
class TempFile : public TempPath {
public:
  explicit TempFile(const std::string& m = "shim-%%%%-%%%%-%%%%-%%%%", const std::string& = "") : TempPath(m) {
    boost::filesystem::ofstream o(m_path);
  }
};
}  // namespace Elements
