#include "schedule.h"
#include <atomic>
#include <dlfcn.h>
#include <pthread.h>
#include <sched.h>
#include <time.h>
#include <unistd.h>
#include <sys/syscall.h>

namespace {
std::atomic<std::uint64_t> g_seed{0}, g_points{0};
std::atomic<unsigned>      g_intensity{0}, g_threads{0}, g_epoch{0};
thread_local std::uint64_t t_state = 0;
thread_local unsigned      t_epoch = 0;
thread_local bool          t_inside = false;

void rawSleep(long ns) {
  struct timespec t = {0, ns};
  syscall(SYS_nanosleep, &t, nullptr);
}
template <typename F>
F next(const char* name, std::atomic<void*>& cache) {
  void* p = cache.load(std::memory_order_relaxed);
  if (!p) {
    p = dlsym(RTLD_NEXT, name);
    cache.store(p, std::memory_order_relaxed);
  }
  return reinterpret_cast<F>(p);
}
}  // namespace

namespace sched {
void enable(std::uint64_t seed, unsigned intensity) {
  g_seed = seed | 1;
  g_points = 0;
  g_threads = 0;
  g_epoch++;
  g_intensity = intensity;
}
void disable() { g_intensity = 0; }
std::uint64_t points() { return g_points; }
void point() {
  unsigned in = g_intensity.load(std::memory_order_relaxed);
  if (in == 0 || t_inside)
    return;
  t_inside = true;
  if (t_epoch != g_epoch.load(std::memory_order_relaxed)) {
    t_epoch = g_epoch.load(std::memory_order_relaxed);
    t_state = g_seed.load() * 0x9e3779b97f4a7c15ull + (g_threads.fetch_add(1) + 1) * 0xbf58476d1ce4e5b9ull;
  }
  g_points.fetch_add(1, std::memory_order_relaxed);
  t_state ^= t_state << 13;
  t_state ^= t_state >> 7;
  t_state ^= t_state << 17;
  std::uint64_t r = t_state * 0x2545f4914f6cdd1dull >> 16;
  if (r % 100 < in) {
    switch ((r >> 8) % 8) {
    case 0: rawSleep(300000); break;
    case 1:
    case 2: rawSleep(60000); break;
    case 3: rawSleep(10000); break;
    default: sched_yield();
    }
  }
  t_inside = false;
}
}  // namespace sched

extern "C" {
int pthread_mutex_lock(pthread_mutex_t* m) {
  static std::atomic<void*> f{nullptr};
  sched::point();
  return next<int (*)(pthread_mutex_t*)>("pthread_mutex_lock", f)(m);
}
int pthread_mutex_unlock(pthread_mutex_t* m) {
  static std::atomic<void*> f{nullptr};
  int r = next<int (*)(pthread_mutex_t*)>("pthread_mutex_unlock", f)(m);
  sched::point();
  return r;
}
int nanosleep(const struct timespec* a, struct timespec* b) {
  static std::atomic<void*> f{nullptr};
  sched::point();
  int r = next<int (*)(const struct timespec*, struct timespec*)>("nanosleep", f)(a, b);
  sched::point();
  return r;
}
int clock_nanosleep(clockid_t c, int fl, const struct timespec* a, struct timespec* b) {
  static std::atomic<void*> f{nullptr};
  sched::point();
  int r = next<int (*)(clockid_t, int, const struct timespec*, struct timespec*)>("clock_nanosleep", f)(c, fl, a, b);
  sched::point();
  return r;
}
}
