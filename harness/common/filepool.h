// Files the pool opens in the checks: they exist only in a registry, which notes every open and close
#ifndef FILEPOOL_H
#define FILEPOOL_H
#include "FilePool/FileAccessor.h"
#include "FilePool/FileHandler.h"
#include "FilePool/FileManager.h"
#include "FilePool/LRUFileManager.h"
#include "common/pbt.h"
#include "common/schedule.h"
#include <boost/filesystem.hpp>
#include <mutex>
#include <unistd.h>

namespace fake {

struct Registry {
  struct Entry {
    std::string path;
    bool        write = false;
    int         type  = 0;
    bool        open  = false;
  };
  std::mutex            mx;
  std::vector<Entry>    all;
  std::size_t           open_now = 0, open_max = 0, opens = 0, failures = 0;
  std::vector<std::string> errors;
  std::set<std::string> broken;  // paths that fail to open
  std::atomic<bool>     perturb{false};

  int open(const std::string& p, bool w, int type) {
    if (perturb)
      sched::point();
    std::lock_guard<std::mutex> l(mx);
    if (broken.count(p)) {
      ++failures;
      throw std::runtime_error("injected failure to open");
    }
    all.push_back({p, w, type, true});
    ++opens;
    ++open_now;
    open_max = std::max(open_max, open_now);
    return static_cast<int>(all.size()) - 1;
  }
  void close(int id, int type) {
    if (perturb)
      sched::point();
    std::lock_guard<std::mutex> l(mx);
    if (id < 0 || static_cast<std::size_t>(id) >= all.size()) {
      errors.push_back("close of a descriptor that is nobody's: " + std::to_string(id));
      return;
    }
    if (!all[static_cast<std::size_t>(id)].open)
      errors.push_back("descriptor " + std::to_string(id) + " closed twice");
    else
      --open_now;
    if (all[static_cast<std::size_t>(id)].type != type)
      errors.push_back("descriptor closed as one of another type");
    all[static_cast<std::size_t>(id)].open = false;
  }
  bool isOpen(int id) {
    std::lock_guard<std::mutex> l(mx);
    return id >= 0 && static_cast<std::size_t>(id) < all.size() && all[static_cast<std::size_t>(id)].open;
  }
  Entry get(int id) {
    std::lock_guard<std::mutex> l(mx);
    return id >= 0 && static_cast<std::size_t>(id) < all.size() ? all[static_cast<std::size_t>(id)] : Entry();
  }
};
inline Registry*& registry() {
  static Registry* r = nullptr;
  return r;
}

// A descriptor that can only be moved
template <int TYPE>
struct Fd {
  int id = -1;
  Fd()   = default;
  explicit Fd(int i) : id(i) {}
  Fd(const Fd&) = delete;
  Fd(Fd&& o) : id(o.id) { o.id = -1; }
  Fd& operator=(Fd&& o) {
    id   = o.id;
    o.id = -1;
    return *this;
  }
};
typedef Fd<0> FdA;
typedef Fd<1> FdB;

// The directory of the case: d/f<k>, a link l to d, links s<k> to the files
struct Dir {
  boost::filesystem::path root;
  std::size_t             n;
  explicit Dir(std::size_t files) : n(files) {
    // the layout never changes, so it is made once per process
    root = boost::filesystem::canonical(pbt::scratchDir()) / ("pool" + std::to_string(getpid()));
    if (!boost::filesystem::exists(root)) {
      boost::filesystem::create_directories(root / "d" / "e");
      boost::filesystem::create_directory_symlink(root / "d", root / "l");
      for (int k = 0; k < 8; ++k) {
        auto f = root / "d" / ("f" + std::to_string(k));
        if (k < 6)  // the last ones do not exist
          if (FILE* h = fopen(f.c_str(), "w"))
            fclose(h);
        if (k < 6)
          boost::filesystem::create_symlink(f, root / ("s" + std::to_string(k)));
      }
    }
  }
  std::string canonical(std::size_t k) const { return (root / "d" / ("f" + std::to_string(k))).string(); }
  boost::filesystem::path spelling(std::size_t k, std::size_t how) const {
    std::string f = "f" + std::to_string(k);
    switch (how % 6) {
    case 0: return root / "d" / f;
    case 1: return root / "l" / f;
    case 2: return root / "d" / "." / f;
    case 3: return root / "d" / "e" / ".." / f;
    case 4: return root / "l" / "e" / ".." / "." / f;
    default: return k < 6 ? root / ("s" + std::to_string(k)) : root / "l" / "." / f;
    }
  }
};
}  // namespace fake

namespace Euclid {
namespace FilePool {
template <int TYPE>
struct OpenCloseTrait<fake::Fd<TYPE>> {
  static fake::Fd<TYPE> open(const boost::filesystem::path& path, bool write) {
    return fake::Fd<TYPE>(fake::registry()->open(path.string(), write, TYPE));
  }
  static void close(fake::Fd<TYPE>& fd) {
    fake::registry()->close(fd.id, TYPE);
    fd.id = -1;
  }
};
}  // namespace FilePool
}  // namespace Euclid
#endif
