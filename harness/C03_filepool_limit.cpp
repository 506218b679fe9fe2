// C03: the file pool never has more files open than its limit, gives up the least recently used idle one, accounts for
// each descriptor, and closes each exactly once
#include "common/filepool.h"
#include <ElementsKernel/Exception.h>
#include <chrono>
#include <thread>

using namespace Euclid::FilePool;
using pbt::Case;

namespace {

struct Held {
  std::size_t                        file;
  int                                type;
  bool                               write;
  int                                id;
  std::unique_ptr<FileAccessorBase>  acc;
};

struct Model {
  struct Handler {
    bool alive = false, user = false, readonly = true;
    std::set<int> idle;
  };
  std::vector<Handler> h;
  std::vector<int>     lru;  // open descriptors, least recently handed out first
  std::map<int, std::size_t> file;
  std::map<int, int>   type;
  void close(int id) {
    lru.erase(std::find(lru.begin(), lru.end(), id));
    h[file[id]].idle.erase(id);
  }
  void closeIdle(std::size_t k) {
    auto ids = h[k].idle;
    for (auto id : ids)
      close(id);
  }
};

template <typename TFD>
std::unique_ptr<FileAccessorBase> acquire(FileHandler& h, int mode, int& id) {
  auto a = h.getAccessor<TFD>(static_cast<FileHandler::Mode>(mode));
  if (!a)
    return nullptr;
  id = a->m_fd.id;
  return std::unique_ptr<FileAccessorBase>(a.release());
}

}  // namespace

PBT_TEST(histories, [] { auto o = pbt::cases(12000, 250000); o.hang_s = 10; return o; }()) {
  fake::Registry reg;
  fake::registry() = &reg;
  bool        many  = c.b(1, 25);
  std::size_t nf    = many ? c.n(20, 160) : c.n(1, 5);
  unsigned    limit = static_cast<unsigned>(many ? c.n(10, 130) : c.n(1, 5));
  fake::Dir   dir(nf);
  auto        mgr = std::make_shared<LRUFileManager>(limit);
  Model       m;
  m.h.resize(nf);
  std::vector<std::shared_ptr<FileHandler>> handler(nf);
  std::vector<Held>                         held;
  c.describe([&](std::ostream& o) { o << "limit " << limit << ", " << nf << " files"; });
  bool evicted = false;
  auto alive = [&](std::size_t k) {
    bool a = m.h[k].user;
    for (auto& x : held)
      a = a || x.file == k;
    if (m.h[k].alive && !a) {
      m.closeIdle(k);
      m.h[k] = Model::Handler();
    }
  };
  auto verify = [&](const char* what) {
    CHECK(reg.errors.empty(), what << ": " << reg.errors[0]);
    for (std::size_t id = 0; id < reg.all.size(); ++id) {
      bool expected = std::find(m.lru.begin(), m.lru.end(), static_cast<int>(id)) != m.lru.end();
      CHECK(reg.all[id].open == expected, what << ": descriptor " << id << " of " << reg.all[id].path << (expected ? " was closed" : " is still open"));
    }
    CHECK(reg.open_max <= limit, what << ": " << reg.open_max << " descriptors open at once, the limit is " << limit);
    for (auto& x : held)
      CHECK(reg.isOpen(x.id), what << ": a descriptor in use was closed");
    if (mgr) {
      CHECK(mgr->getUsed() == m.lru.size(), what << ": getUsed() is " << mgr->getUsed() << " with " << m.lru.size() << " descriptors open");
      CHECK(mgr->getAvailable() == limit - m.lru.size(), what << ": getAvailable() is " << mgr->getAvailable());
      CHECK(mgr->getLimit() == limit, what << ": getLimit() is " << mgr->getLimit());
    }
  };
  std::size_t steps = many ? c.n(100, 400) : c.size(1, 40, 400, 100);
  for (std::size_t s = 0; s < steps; ++s) {
    std::size_t op = c.weighted({6, 3, 1, 1, 1});
    const char* what = "?";
    if (op == 0) {
      std::size_t k = c.n(0, nf - 1);
      bool write = c.b(1, 3), tr = c.b(1, 4);
      int  type = c.b(1, 4);
      what = write ? "write accessor" : "read accessor";
      if (!handler[k]) {
        handler[k]   = mgr->getFileHandler(dir.spelling(k, c.n(0, 5)));
        m.h[k].alive = m.h[k].user = true;
      }
      bool blocked = false;
      for (auto& x : held)
        blocked = blocked || (x.file == k && (x.write || write));
      c.describe([&](std::ostream& o) { o << "  " << (tr ? "try " : "") << what << " of file " << k << " type " << type << (blocked ? " (taken)" : ""); });
      if (blocked && !tr)
        continue;
      int mode = (write ? FileHandler::kWrite : FileHandler::kRead) | (tr ? FileHandler::kTry : 0);
      int id   = -1;
      std::unique_ptr<FileAccessorBase> acc;
      bool limit_error = false, open_error = false;
      std::size_t opens = reg.opens;
      try {
        acc = type ? acquire<fake::FdB>(*handler[k], mode, id) : acquire<fake::FdA>(*handler[k], mode, id);
      } catch (const Elements::Exception&) {
        limit_error = true;
      } catch (const std::runtime_error& e) {
        CHECK(std::string(e.what()).find("injected") != std::string::npos, what << ": unexpected exception " << e.what());
        open_error = true;
      }
      auto& h = m.h[k];
      if (blocked) {
        CHECK(!acc && !limit_error && !open_error, what << ": try on a taken file did not come back empty");
        c.label("try refused");
      } else {
        if (h.readonly == write) {
          c.label("mode change", !h.idle.empty());
          m.closeIdle(k);
          h.readonly = !write;
        }
        if (write)
          for (auto i : std::set<int>(h.idle))
            if (m.type[i] != type) {
              m.close(i);
              c.label("type change");
            }
        std::set<int> usable;
        for (auto i : h.idle)
          if (m.type[i] == type)
            usable.insert(i);
        if (!usable.empty()) {
          CHECK(acc, what << ": no accessor although a descriptor is idle");
          CHECK(reg.opens == opens, what << ": a file was opened although a descriptor is idle");
          CHECK(usable.count(id), what << ": got descriptor " << id << ", which is not an idle one of that file");
          h.idle.erase(id);
          m.lru.erase(std::find(m.lru.begin(), m.lru.end(), id));
        } else {
          bool full = m.lru.size() >= limit;
          if (full)
            for (auto i : m.lru)
              if (m.h[m.file[i]].idle.count(i)) {
                m.close(i);
                full    = false;
                evicted = true;
                c.label("eviction");
                break;
              }
          if (full) {
            CHECK(limit_error, what << ": all " << limit << " descriptors are in use, but no exception");
            c.label("limit reached");
          } else if (reg.broken.count(dir.canonical(k))) {
            CHECK(open_error, what << ": the failure to open did not reach the caller");
            c.label("open failed");
          } else {
            CHECK(!limit_error && !open_error && acc, what << ": no accessor");
            CHECK(id == static_cast<int>(reg.all.size()) - 1 && reg.opens == opens + 1, what << ": not one file opened");
            m.file[id] = k;
            m.type[id] = type;
          }
        }
        if (acc) {
          m.lru.push_back(id);
          auto e = reg.get(id);
          CHECK(e.path == dir.canonical(k), what << ": opened " << e.path << " instead of " << dir.canonical(k));
          CHECK(e.write == write, what << ": opened for " << (e.write ? "writing" : "reading"));
          CHECK(acc->isReadOnly() == !write, what << ": accessor isReadOnly() is " << acc->isReadOnly());
          CHECK(handler[k]->isReadOnly() == !write, what << ": handler isReadOnly() is " << handler[k]->isReadOnly());
          held.push_back({k, type, write, id, std::move(acc)});
        }
      }
    } else if (op == 1) {
      what = "release of an accessor";
      if (held.empty())
        continue;
      std::size_t x = c.n(0, held.size() - 1);
      Held        r = std::move(held[x]);
      held.erase(held.begin() + static_cast<long>(x));
      c.describe([&](std::ostream& o) { o << "  release descriptor " << r.id << " of file " << r.file; });
      r.acc.reset();
      m.h[r.file].idle.insert(r.id);
      alive(r.file);
    } else if (op == 2) {
      what = "release of a handler";
      std::size_t k = c.n(0, nf - 1);
      if (!handler[k])
        continue;
      c.describe([&](std::ostream& o) { o << "  release the handler of file " << k; });
      for (auto& x : held)
        c.label("accessor outlives its handler", x.file == k);
      handler[k].reset();
      m.h[k].user = false;
      alive(k);
    } else if (op == 3) {
      what = "broken file";
      std::string p = dir.canonical(c.n(0, nf - 1));
      c.describe([&](std::ostream& o) { o << "  toggle failure of " << p; });
      if (!reg.broken.erase(p))
        reg.broken.insert(p);
    } else if (c.b(1, 4)) {
      what = "closing all";
      c.describe([&](std::ostream& o) { o << "  close all"; });
      mgr->closeAll();
      for (std::size_t k = 0; k < nf; ++k)
        m.closeIdle(k);
    }
    verify(what);
  }
  c.nontrivial(evicted && m.lru.size() > 0);
  // the end, in any order
  std::size_t order = c.n(0, 5);
  c.describe([&](std::ostream& o) { o << "  end, order " << order; });
  for (std::size_t k = 0; k < 3; ++k) {
    static const int perm[6][3] = {{0, 1, 2}, {0, 2, 1}, {1, 0, 2}, {1, 2, 0}, {2, 0, 1}, {2, 1, 0}};
    if (perm[order][k] == 0)
      held.clear();
    else if (perm[order][k] == 1)
      handler.clear();
    else
      mgr.reset();
  }
  CHECK(reg.errors.empty(), "at the end: " << reg.errors[0]);
  CHECK(reg.open_now == 0, reg.open_now << " descriptors are still open after everything was released");
}

// Many threads open files at the same time
PBT_TEST(concurrent_opens, [] { auto o = pbt::scheduled(500, 12000, 3); o.hang_s = 20; return o; }()) {
  fake::Registry reg;
  fake::registry() = &reg;
  std::size_t nt    = c.n(2, 4), nf = c.n(1, 6);
  bool        roomy = c.b();
  unsigned    limit = static_cast<unsigned>(roomy ? 2 * nt + c.n(0, 2) : c.n(1, 2 * nt - 1));
  std::uint64_t seed = c.draw(1 << 30);
  unsigned    intensity = static_cast<unsigned>(c.n(0, 60));
  std::size_t rounds = c.n(5, 30);
  bool        drop  = c.b();
  fake::Dir   dir(nf);
  c.describe([&](std::ostream& o) { o << nt << " threads, " << nf << " files, limit " << limit << ", " << rounds << " rounds, perturbation " << intensity << (drop ? ", handlers released" : ""); });
  auto mgr = std::make_shared<LRUFileManager>(limit);
  std::vector<std::shared_ptr<FileHandler>> handler(nf);
  for (std::size_t k = 0; k < nf && !drop; ++k)
    handler[k] = mgr->getFileHandler(dir.spelling(k, 0));
  std::atomic<int> limit_errors{0}, bad{0}, done{0};
  reg.perturb = true;
  sched::enable(seed, intensity);
  std::vector<std::thread> threads;
  for (std::size_t t = 0; t < nt; ++t)
    threads.emplace_back([&, t] {
      std::uint64_t r = pbt::mix(seed + t);
      for (std::size_t k = 0; k < rounds; ++k) {
        r             = pbt::mix(r);
        std::size_t f = (r >> 8) % nf;
        int         mode = ((r >> 20) % 4 == 0) ? FileHandler::kWrite : FileHandler::kRead;
        try {
          auto h = drop ? mgr->getFileHandler(dir.spelling(f, (r >> 30) % 6)) : handler[f];
          int  id = -1;
          auto a = (r >> 40) % 4 == 0 ? acquire<fake::FdB>(*h, mode, id) : acquire<fake::FdA>(*h, mode, id);
          if (!reg.isOpen(id) || reg.get(id).path != dir.canonical(f) || reg.get(id).write != (mode == FileHandler::kWrite))
            bad++;
          sched::point();
          if (!reg.isOpen(id))
            bad++;
          done++;
        } catch (const Elements::Exception&) {
          limit_errors++;
        }
      }
    });
  for (auto& t : threads)
    t.join();
  sched::disable();
  reg.perturb = false;
  c.nontrivial(reg.opens > limit);
  CHECK(reg.errors.empty(), reg.errors[0]);
  CHECK(bad == 0, "a thread got a descriptor that is closed or of another file");
  CHECK(reg.open_max <= limit, reg.open_max << " descriptors open at once, the limit is " << limit);
  // a handler on its way out cannot be asked to close its files any more
  if (roomy && !drop)
    CHECK(limit_errors == 0, limit_errors << " failures to open although at most " << nt << " descriptors were in use and the limit is " << limit);
  CHECK(mgr->getUsed() == reg.open_now, "getUsed() is " << mgr->getUsed() << " with " << reg.open_now << " descriptors open");
  handler.clear();
  mgr.reset();
  CHECK(reg.open_now == 0, reg.open_now << " descriptors are still open after everything was released");
}
