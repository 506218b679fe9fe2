// C04: a file reached through the pool, whatever the spelling of its path, has one writer or many readers at a time
#include "common/filepool.h"
#include <ElementsKernel/Exception.h>
#include <chrono>
#include <thread>

using namespace Euclid::FilePool;
using pbt::Case;

namespace {
struct Watch {
  std::atomic<int> readers{0}, writers{0};
  long             value = 0;  // only touched by who has access
};
struct Counts {
  std::atomic<int>  exclusion{0}, tries{0}, refused{0}, writes{0}, reads{0}, shared{0}, failed{0}, wrong{0};
  std::atomic<long> sink{0};
};

template <typename TFD>
bool use(FileHandler& h, int mode, Watch& w, Counts& n, const std::string& path) {
  auto a = h.getAccessor<TFD>(static_cast<FileHandler::Mode>(mode));
  if (!a)
    return false;
  auto e = fake::registry()->get(a->m_fd.id);
  if (!e.open || e.path != path || e.write != ((mode & FileHandler::kWrite) != 0) || a->isReadOnly() == e.write)
    n.wrong++;
  if (mode & FileHandler::kWrite) {
    if (w.writers.fetch_add(1) != 0 || w.readers != 0)
      n.exclusion++;
    long v = w.value;
    sched::point();
    w.value = v + 1;
    sched::point();
    if (w.readers != 0 || w.writers != 1)
      n.exclusion++;
    n.writes++;
    w.writers--;
  } else {
    if (w.readers.fetch_add(1) != 0)
      n.shared++;
    if (w.writers != 0)
      n.exclusion++;
    long v = w.value;
    sched::point();
    if (w.writers != 0 || v != w.value)
      n.exclusion++;
    n.sink += v;
    n.reads++;
    w.readers--;
  }
  return true;
}
}  // namespace

PBT_TEST(threads, [] { auto o = pbt::scheduled(700, 15000, 3); o.hang_s = 20; return o; }()) {
  fake::Registry reg;
  fake::registry() = &reg;
  std::size_t   nt = c.n(2, 4), nf = c.n(1, 3);
  unsigned      limit = static_cast<unsigned>(c.b() ? 2 * nt : c.n(1, 30));
  std::uint64_t seed = c.draw(1 << 30);
  unsigned      intensity = static_cast<unsigned>(c.n(0, 60));
  std::size_t   rounds = c.n(5, 30);
  // how the threads come by the handlers: kept by all, kept by each, or asked for each time
  std::size_t   keep = c.n(0, 2);
  fake::Dir     dir(nf);
  c.describe([&](std::ostream& o) { o << nt << " threads, " << nf << " files, limit " << limit << ", " << rounds << " rounds, perturbation " << intensity << ", handlers " << (keep == 0 ? "shared" : keep == 1 ? "one per thread" : "asked for each time"); });
  auto   mgr = std::make_shared<LRUFileManager>(limit);
  std::vector<std::shared_ptr<FileHandler>> handler(nf);
  for (std::size_t k = 0; k < nf && keep == 0; ++k)
    handler[k] = mgr->getFileHandler(dir.spelling(k, seed + k));
  std::vector<Watch> watch(nf);
  std::vector<std::atomic<int>> written(nf);
  Counts n;
  sched::enable(seed, intensity);
  std::vector<std::thread> threads;
  for (std::size_t t = 0; t < nt; ++t)
    threads.emplace_back([&, t] {
      std::uint64_t r = pbt::mix(seed + t);
      std::vector<std::shared_ptr<FileHandler>> mine(nf);
      for (std::size_t k = 0; k < nf && keep == 1; ++k)
        mine[k] = mgr->getFileHandler(dir.spelling(k, seed + 7 * t + k));
      for (std::size_t k = 0; k < rounds; ++k) {
        r             = pbt::mix(r);
        std::size_t f = (r >> 8) % nf;
        int mode = ((r >> 20) % 3 == 0 ? FileHandler::kWrite : FileHandler::kRead) | ((r >> 28) % 3 == 0 ? FileHandler::kTry : 0);
        try {
          auto h = keep == 0 ? handler[f] : keep == 1 ? mine[f] : mgr->getFileHandler(dir.spelling(f, (r >> 30) % 6));
          bool ok = (r >> 40) % 5 == 0 ? use<fake::FdB>(*h, mode, watch[f], n, dir.canonical(f)) : use<fake::FdA>(*h, mode, watch[f], n, dir.canonical(f));
          if (mode & FileHandler::kTry)
            n.tries++;
          if (!ok) {
            n.refused++;
            if (!(mode & FileHandler::kTry))
              n.wrong++;
          } else if (mode & FileHandler::kWrite) {
            written[f]++;
          }
        } catch (const Elements::Exception&) {
          n.failed++;
        }
      }
    });
  for (auto& t : threads)
    t.join();
  sched::disable();
  c.nontrivial(n.writes > 0 && n.reads > 0);
  c.label("readers overlap", n.shared > 0);
  c.label("try refused", n.refused > 0);
  CHECK(n.exclusion == 0, "a writer was not alone (" << n.exclusion << " times)");
  CHECK(n.wrong == 0, "an accessor of the wrong file or mode, or none (" << n.wrong << " times)");
  for (std::size_t k = 0; k < nf; ++k)
    CHECK(watch[k].value == written[k], "file " << k << ": " << watch[k].value << " of " << written[k] << " updates are left");
  CHECK(reg.errors.empty(), reg.errors[0]);
  if (limit >= 2 * nt && keep < 2)
    CHECK(n.failed == 0, n.failed << " failures with a limit of " << limit << " and " << nt << " threads");
  handler.clear();
  // every accessor is gone, so nothing may be locked
  for (std::size_t k = 0; k < nf; ++k) {
    auto h = mgr->getFileHandler(dir.spelling(k, k));
    CHECK(h->getAccessor<fake::FdA>(FileHandler::kTryWrite), "file " << k << " is still taken after all accessors are gone");
  }
}

// What a try means, and which handlers are the same
PBT_TEST(identity, pbt::cases(6000, 100000)) {
  fake::Registry reg;
  fake::registry() = &reg;
  fake::Dir   dir(8);
  auto        mgr = std::make_shared<LRUFileManager>(50);
  std::vector<std::pair<std::size_t, std::shared_ptr<FileHandler>>> hs;
  struct Acc {
    std::size_t file;
    bool        write;
    std::unique_ptr<FileAccessor<fake::FdA>> a;
  };
  std::vector<Acc> held;
  auto             used = [&](std::size_t k) {
    bool any = false;
    for (auto& o : hs)
      any = any || o.first == k;
    for (auto& o : held)
      any = any || o.file == k;
    return any;
  };
  std::array<std::size_t, 3> target{{8, 8, 8}};
  std::size_t                steps = c.len(2, 30);
  for (std::size_t s = 0; s < steps; ++s) {
    std::size_t f = c.n(0, 7), op = c.n(0, 4);
    if (op == 4 || (op == 0 && c.b(1, 4))) {
      // a link which is pointed to one file after the other
      std::size_t k = c.n(0, 2);
      auto        l = dir.root / ("m" + std::to_string(k));
      if (op == 4) {
        target[k] = c.n(0, 5);
        c.describe([&](std::ostream& o) { o << "m" << k << " points to file " << target[k]; });
        boost::filesystem::remove(l);
        boost::filesystem::create_symlink(dir.canonical(target[k]), l);
        c.label("link changed");
      } else if (target[k] < 8) {
        c.describe([&](std::ostream& o) { o << "handler of m" << k << ", which points to file " << target[k]; });
        CHECK(mgr->hasHandler(l) == used(target[k]), "hasHandler(a link to file " << target[k] << ") is " << !used(target[k]));
        auto h = mgr->getFileHandler(l);
        for (auto& o : hs)
          CHECK((o.second == h) == (o.first == target[k]), "a link to file " << target[k] << " and a path to file " << o.first << " have " << (o.second == h ? "the same handler" : "different handlers"));
        hs.push_back({target[k], h});
      }
    } else if (op == 0) {
      std::size_t how = c.n(0, 5);
      c.describe([&](std::ostream& o) { o << "handler of " << dir.spelling(f, how).string(); });
      auto h = mgr->getFileHandler(dir.spelling(f, how));
      for (auto& o : hs) {
        CHECK((o.second == h) == (o.first == f), dir.spelling(f, how).string() << " and a path to file " << o.first << " have " << (o.second == h ? "the same handler" : "different handlers"));
        c.nontrivial(o.first == f);
      }
      hs.push_back({f, h});
    } else if (op == 1 && !hs.empty()) {
      std::size_t k = c.n(0, hs.size() - 1);
      c.describe([&](std::ostream& o) { o << "release a handler of file " << hs[k].first; });
      hs.erase(hs.begin() + static_cast<long>(k));
    } else if (op == 2 && !hs.empty()) {
      std::size_t k     = c.n(0, hs.size() - 1);
      bool        write = c.b();
      bool        taken = false;
      for (auto& a : held)
        taken = taken || (a.file == hs[k].first && (a.write || write));
      c.describe([&](std::ostream& o) { o << "try to " << (write ? "write" : "read") << " file " << hs[k].first << (taken ? " (taken)" : ""); });
      auto a = hs[k].second->getAccessor<fake::FdA>(write ? FileHandler::kTryWrite : FileHandler::kTryRead);
      CHECK((a != nullptr) == !taken, "try to " << (write ? "write" : "read") << " file " << hs[k].first << (a ? " succeeded" : " failed"));
      if (a) {
        CHECK(a->isReadOnly() == !write && hs[k].second->isReadOnly() == !write, "access to " << (write ? "write" : "read") << " file " << hs[k].first << " with the read only flags " << a->isReadOnly() << " and "
                                                                                           << hs[k].second->isReadOnly());
        held.push_back({hs[k].first, write, std::move(a)});
      }
    } else if (op == 3 && !held.empty()) {
      std::size_t k = c.n(0, held.size() - 1);
      c.describe([&](std::ostream& o) { o << "release an accessor of file " << held[k].file; });
      held.erase(held.begin() + static_cast<long>(k));
    }
    for (std::size_t k = 0; k < 8; ++k) {
      bool any = used(k);
      CHECK(mgr->hasHandler(dir.spelling(k, s)) == any, "hasHandler(file " << k << ") is " << !any);
    }
  }
}
