// C01: the thread pool runs every submitted task exactly once, in order, and its blocking calls mean what they say
#include "AlexandriaKernel/ThreadPool.h"
#include "common/pbt.h"
#include "common/schedule.h"
#include <atomic>
#include <chrono>
#include <memory>
#include <thread>
#include <unistd.h>

using Euclid::ThreadPool;
using pbt::Case;

namespace {

pbt::Options pool(std::uint64_t quick, std::uint64_t thorough, unsigned workers) {
  auto o   = pbt::scheduled(quick, thorough, workers);
  o.hang_s = 20;
  return o;
}

struct TaskSpec {
  unsigned delay_us = 0;
  bool     throws   = false;
};

struct Boom {
  int id;
};

struct History {
  explicit History(std::size_t n) : started(n), finished(n) {}
  std::vector<std::atomic<int>> started, finished;
  std::atomic<int>              n_started{0}, running{0}, max_running{0}, thrown{0};
  std::atomic<int>              order_error{-1};

  void run(int id, const TaskSpec& s, unsigned threads, bool ordered) {
    started[id]++;
    n_started++;
    int r = ++running, m = max_running;
    while (r > m && !max_running.compare_exchange_weak(m, r)) {
    }
    if (ordered && threads > 0) {
      // a task taken from the queue and not started yet occupies another worker
      int missing = 0;
      for (int k = 0; k < id; ++k)
        missing += started[k].load() == 0;
      if (missing > static_cast<int>(threads) - 1)
        order_error = id;
    }
    if (s.delay_us)
      std::this_thread::sleep_for(std::chrono::microseconds(s.delay_us));
    else
      sched::point();
    running--;
    finished[id]++;
    if (s.throws) {
      thrown++;
      throw Boom{id};
    }
  }
  int sum(const std::vector<std::atomic<int>>& v) const {
    int s = 0;
    for (auto& x : v)
      s += x;
    return s;
  }
};

std::vector<TaskSpec> genTasks(Case& c, std::size_t n, bool with_throw) {
  std::vector<TaskSpec> t(n);
  for (auto& s : t) {
    s.delay_us = n > 100 || c.weighted({5, 2, 1}) == 0 ? 0 : static_cast<unsigned>(c.n(1, 600));
    s.throws   = with_throw && c.b(1, 8);
  }
  return t;
}

struct Sched {
  explicit Sched(Case& c) {
    unsigned intensity = c.pick({0u, 10u, 40u, 80u});
    sched::enable(c.draw(1u << 30), intensity);
  }
  ~Sched() { sched::disable(); }
};

}  // namespace

// Rounds of submit (from several threads) and block
PBT_TEST(submit_block, pool(1500, 20000, 4)) {
  unsigned threads = static_cast<unsigned>(c.weighted({1, 9}) == 0 ? c.n(0, 1) : c.n(1, 8));
  unsigned wait    = static_cast<unsigned>(c.pick({1, 0, 2, 5}));
  unsigned rounds  = static_cast<unsigned>(c.n(1, 3));
  Sched    s(c);
  ThreadPool pool(threads, wait);
  for (unsigned round = 0; round < rounds; ++round) {
    std::size_t n    = c.size(0, 60, 1500, 200);
    unsigned    subs = threads == 0 ? 1 : static_cast<unsigned>(c.n(1, 3));
    auto        spec = genTasks(c, n, false);
    History     h(n);
    c.describe([&](std::ostream& o) { o << "round " << round << ": threads=" << threads << " wait_ms=" << wait << " tasks=" << n << " submitters=" << subs; });
    c.nontrivial(threads >= 2 && n > threads);
    auto submitter = [&](unsigned who) {
      for (std::size_t k = who; k < n; k += subs)
        pool.submit([&h, &spec, k, threads, subs] { h.run(static_cast<int>(k), spec[k], threads, subs == 1); });
    };
    std::vector<std::thread> ts;
    for (unsigned k = 1; k < subs; ++k)
      ts.emplace_back(submitter, k);
    submitter(0);
    for (auto& t : ts)
      t.join();
    pool.block();
    int fin = h.sum(h.finished), run = h.running;
    for (std::size_t k = 0; k < n; ++k)
      CHECK(h.started[k] == 1 && h.finished[k] == 1,
            "task " << k << " of " << n << " started " << h.started[k] << " times and finished " << h.finished[k] << " times when block() returned");
    CHECK(fin == static_cast<int>(n) && run == 0, "block() returned with unfinished tasks");
    CHECK(h.order_error < 0, "task " << h.order_error << " was started before tasks submitted earlier");
    CHECK(h.max_running <= static_cast<int>(std::max(1u, threads)), h.max_running << " tasks ran at once on " << threads << " threads");
    CHECK(pool.queued() == 0, "tasks queued after block()");
    CHECK(pool.activeThreads() == threads, "workers ended: " << pool.activeThreads() << " of " << threads << " active");
    CHECK(pool.running() <= threads, "more running workers than threads");
    CHECK(!pool.checkForException(), "an exception is reported although no task threw");
  }
}

// All the threads of the pool work at the same time
PBT_TEST(parallelism, pool(150, 1500, 3)) {
  unsigned threads = static_cast<unsigned>(c.n(2, 8));
  Sched    s(c);
  unsigned extra = static_cast<unsigned>(c.n(0, 10));
  c.describe([&](std::ostream& o) { o << "barrier of " << threads << " tasks, " << extra << " more tasks"; });
  c.nontrivial();
  ThreadPool            pool(threads, 1);
  std::atomic<unsigned> arrived{0}, others{0};
  for (unsigned k = 0; k < threads; ++k)
    pool.submit([&] {
      arrived++;
      // hangs (and is reported as a hang) if the pool cannot run that many tasks together
      while (arrived < threads)
        std::this_thread::sleep_for(std::chrono::microseconds(200));
    });
  for (unsigned k = 0; k < extra; ++k)
    pool.submit([&] { others++; });
  pool.block();
  CHECK(arrived == threads && others == extra, "block() returned early");
}

// What the pool tells about itself when nothing moves: every worker busy, a known number of tasks waiting
PBT_TEST(counters, pool(300, 3000, 3)) {
  unsigned threads = static_cast<unsigned>(c.n(1, 8));
  unsigned wait    = static_cast<unsigned>(c.pick({1, 0, 2}));
  unsigned waiting = static_cast<unsigned>(c.size(0, 20, 3000, 20));
  Sched    s(c);
  c.describe([&](std::ostream& o) { o << threads << " busy workers, " << waiting << " tasks waiting"; });
  c.nontrivial(waiting > 0);
  std::atomic<unsigned> arrived{0}, done{0};
  std::atomic<bool>     open{false};
  ThreadPool            pool(threads, wait);
  CHECK(pool.queued() == 0 && pool.activeThreads() == threads, "a new pool has " << pool.queued() << " tasks and " << pool.activeThreads() << " workers");
  struct Opener {
    std::atomic<bool>& open;
    ~Opener() { open = true; }
  } opener{open};
  for (unsigned k = 0; k < threads; ++k)
    pool.submit([&] {
      arrived++;
      while (!open)
        std::this_thread::sleep_for(std::chrono::microseconds(100));
    });
  while (arrived < threads)
    std::this_thread::sleep_for(std::chrono::microseconds(100));
  for (unsigned k = 0; k < waiting; ++k) {
    CHECK(pool.queued() == k, pool.queued() << " tasks queued instead of " << k);
    pool.submit([&] { done++; });
  }
  auto queued = pool.queued(), running = pool.running(), active = pool.activeThreads();
  auto early = done.load();
  open = true;
  pool.block();
  CHECK(queued == waiting, queued << " tasks queued instead of " << waiting);
  CHECK(running == threads, running << " tasks running instead of " << threads);
  CHECK(active == threads, active << " active workers instead of " << threads);
  CHECK(early == 0, "a task was run although every worker was busy");
  CHECK(done == waiting, "block() returned early");
}

// A task that throws: block() rethrows, running tasks finish, nothing new starts
PBT_TEST(exceptions, pool(1500, 20000, 4)) {
  unsigned threads = static_cast<unsigned>(c.n(1, 8));
  unsigned wait    = static_cast<unsigned>(c.pick({1, 0, 2}));
  std::size_t n    = c.n(1, 50);
  auto        spec = genTasks(c, n, true);
  spec[c.n(0, n - 1)].throws = true;
  bool     poll = c.b();
  Sched    s(c);
  History  h(n);
  c.describe([&](std::ostream& o) {
    o << "threads=" << threads << " wait_ms=" << wait << " throwing tasks:";
    for (std::size_t k = 0; k < n; ++k)
      if (spec[k].throws)
        o << " " << k;
    o << " of " << n;
  });
  c.nontrivial(n > 1);
  int after_block;
  {
    ThreadPool pool(threads, wait);
    for (std::size_t k = 0; k < n; ++k)
      pool.submit([&h, &spec, k, threads] { h.run(static_cast<int>(k), spec[k], threads, true); });
    if (poll)
      for (int k = 0; k < 20; ++k) {
        if (pool.checkForException())
          CHECK(h.thrown > 0, "an exception is reported before any task threw");
        sched::point();
      }
    int caught = -1;
    try {
      pool.block();
    } catch (const Boom& b) {
      caught = b.id;
    }
    int run = h.running;
    after_block = h.n_started;
    CHECK(caught >= 0, "block() did not rethrow, " << h.thrown << " tasks threw");
    CHECK(spec[caught].throws && h.finished[caught] == 1, "block() rethrew an exception no task threw: " << caught);
    CHECK(run == 0, "block() rethrew while tasks were running");
    CHECK(pool.checkForException(), "no exception reported after block() rethrew");
    bool again = false;
    try {
      pool.checkForException(true);
    } catch (const Boom& b) {
      again = spec[b.id].throws;
    }
    CHECK(again, "checkForException(true) did not rethrow");
    // anything submitted now must not be started
    std::atomic<int> late{0};
    pool.submit([&] { late++; });
    std::this_thread::sleep_for(std::chrono::milliseconds(wait + 1));
    CHECK(h.n_started == after_block && late == 0, "tasks were started after block() rethrew");
    CHECK(pool.activeThreads() <= threads && pool.running() <= threads, "more active workers than threads");
    // the workers end (reported as a hang if they do not)
    while (pool.activeThreads() > 0)
      std::this_thread::sleep_for(std::chrono::microseconds(200));
    CHECK(pool.running() == 0, "running tasks reported by a pool without active workers");
  }
  CHECK(h.n_started == after_block && h.running == 0, "tasks were started after the exception, during destruction");
  for (std::size_t k = 0; k < n; ++k)
    CHECK(h.started[k] <= 1 && h.started[k] == h.finished[k], "task " << k << " started " << h.started[k] << ", finished " << h.finished[k]);
  CHECK(h.order_error < 0, "task " << h.order_error << " was started before tasks submitted earlier");
}

// Destruction with tasks in the queue: running ones finish, the rest is dropped, none is run later or twice
PBT_TEST(destruction, pool(1200, 15000, 4)) {
  unsigned    threads = static_cast<unsigned>(c.n(1, 8));
  unsigned    wait    = static_cast<unsigned>(c.pick({1, 0, 2}));
  std::size_t n       = c.len(0, 60);
  auto        spec    = genTasks(c, n, c.b(1, 4));
  unsigned    linger  = static_cast<unsigned>(c.n(0, 800));
  Sched       s(c);
  History     h(n);
  c.describe([&](std::ostream& o) { o << "threads=" << threads << " wait_ms=" << wait << " tasks=" << n << " destroyed after " << linger << "us"; });
  c.nontrivial(n > 0);
  auto alive = std::make_shared<int>(0);
  {
    ThreadPool pool(threads, wait);
    for (std::size_t k = 0; k < n; ++k)
      pool.submit([&h, &spec, k, threads, alive] { h.run(static_cast<int>(k), spec[k], threads, true); });
    if (linger)
      std::this_thread::sleep_for(std::chrono::microseconds(linger));
  }
  int st = h.n_started, run = h.running;
  CHECK(run == 0, "the destructor returned while " << run << " tasks were running");
  CHECK(alive.use_count() == 1, "tasks are still held after the destructor returned");
  std::this_thread::sleep_for(std::chrono::microseconds(200));
  CHECK(h.n_started == st, "tasks were started after the destructor returned");
  for (std::size_t k = 0; k < n; ++k)
    CHECK(h.started[k] <= 1 && h.started[k] == h.finished[k], "task " << k << " started " << h.started[k] << ", finished " << h.finished[k]);
  CHECK(h.order_error < 0, "task " << h.order_error << " was started before tasks submitted earlier");
  c.label("some tasks dropped", st < static_cast<int>(n));
  c.label("all tasks run", st == static_cast<int>(n) && n > 0);
}
