// Driver of the engine declared in pbt.h
#include "pbt.h"
#include <chrono>
#include <csignal>
#include <fcntl.h>
#include <fstream>
#include <iostream>
#include <memory>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <typeinfo>
#include <unistd.h>
#include <ftw.h>
#include <new>

namespace pbt {
std::vector<Test>& registry() {
  static std::vector<Test> r;
  return r;
}
std::vector<Known>& knownRegistry() {
  static std::vector<Known> r;
  return r;
}
Live& live() {
  static Live l;
  return l;
}
static std::string g_scratch_root, g_scratch;
const std::string& scratchDir() {
  if (g_scratch.empty()) {
    g_scratch = g_scratch_root + "/p" + std::to_string(getpid());
    mkdir(g_scratch.c_str(), 0700);
  }
  return g_scratch;
}
}  // namespace pbt

using namespace pbt;
typedef std::uint64_t u64;

static double now() { return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count(); }

static int rmEntry(const char* p, const struct stat*, int, struct FTW*) { return remove(p); }
static void rmTree(const std::string& d) {
  if (!d.empty())
    nftw(d.c_str(), rmEntry, 32, FTW_DEPTH | FTW_PHYS);
}
static void makeScratchRoot() {
  const char* t = getenv("TMPDIR");
  std::string tpl = std::string(t ? t : "/tmp") + "/pbt-XXXXXX";
  std::vector<char> b(tpl.begin(), tpl.end());
  b.push_back(0);
  if (!mkdtemp(b.data())) {
    perror("mkdtemp");
    exit(2);
  }
  g_scratch_root = b.data();
}

static u64 hashStr(const std::string& s) {
  u64 h = 1469598103934665603ull;
  for (unsigned char ch : s)
    h = (h ^ ch) * 1099511628211ull;
  return h;
}
static u64 hashChoices(u64 salt, const std::vector<u64>& v) {
  u64 h = mix(salt);
  for (u64 x : v)
    h = mix(h ^ x);
  return h ? h : 1;
}

#ifdef PBT_LIBFUZZER
// ------------------------------------------------------------------------------------------------ libFuzzer driver
extern "C" void __sanitizer_set_death_callback(void (*)(void));
static const Test* g_test = nullptr;
static const u64   LIVE_CAP = 1 << 20;
static u64         g_live_count = 0;
static std::vector<u64> g_live(LIVE_CAP);
static void dump() {
  const char* p = getenv("PBT_FUZZ_REPLAY");
  if (!p)
    return;
  FILE* f = fopen(p, "w");
  if (!f)
    return;
  fprintf(f, "pbt-replay 1\ntest %s\nsize 60\nchoices", g_test->name.c_str());
  for (u64 k = 0; k < g_live_count; ++k)
    fprintf(f, " %llu", static_cast<unsigned long long>(g_live[k]));
  fprintf(f, "\n---\n");
  fclose(f);
}
extern "C" int LLVMFuzzerInitialize(int*, char***) {
  const char* t = getenv("PBT_TEST");
  for (auto& x : registry())
    if (t && x.name == t)
      g_test = &x;
  if (!g_test) {
    fprintf(stderr, "PBT_TEST unset or unknown\n");
    exit(2);
  }
  makeScratchRoot();
  live().capacity = LIVE_CAP;
  live().count    = &g_live_count;
  live().data     = g_live.data();
  __sanitizer_set_death_callback(dump);
  atexit([] { rmTree(g_scratch_root); });
  return 0;
}
extern "C" int LLVMFuzzerTestOneInput(const uint8_t* data, size_t len) {
  g_live_count = 0;
  Case c(data, len, 60);
  try {
    g_test->fn(c);
  } catch (const Discard&) {
    return -1;
  } catch (const std::exception& e) {
    fprintf(stderr, "PBT failure: %s\n", e.what());
    dump();
    abort();
  }
  return 0;
}
#else
// ------------------------------------------------------------------------------------------------ own driver
namespace {

const unsigned MAXW     = 16;
const u64      LIVE_CAP = 1 << 21;
const u64      HASH_CAP = 1 << 23;
const unsigned NSAMPLE  = 4;

enum Status : int { ST_NONE = 0, ST_PASS, ST_DISCARD, ST_FAIL, ST_CRASH, ST_HANG };

struct WorkerSlot {
  std::atomic<u64>    idx;
  std::atomic<double> start;
  std::atomic<u64>    done, discards, nontrivial;
  std::atomic<int>    running, failed;
  u64                 fail_idx;
  u64                 sample[NSAMPLE];
  std::atomic<u64>    nsample;
};
struct Shared {
  WorkerSlot        w[MAXW];
  std::atomic<int>  stop;
  std::atomic<u64>  distinct;
  // result of a single run
  std::atomic<int>  status;
  char              msg[1 << 14];
  char              desc[1 << 16];
  u64               live_count;
  u64               failing;  // of a history
};
Shared*           sh;
u64*              liveData;
std::atomic<u64>* hashes;

void* shmap(std::size_t n) {
  void* p = mmap(nullptr, n, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  if (p == MAP_FAILED) {
    perror("mmap");
    exit(2);
  }
  return p;
}

bool insertHash(u64 h) {
  u64 k = h & (HASH_CAP - 1);
  for (unsigned probes = 0; probes < 1024; ++probes, k = (k + 1) & (HASH_CAP - 1)) {
    u64 cur = hashes[k].load(std::memory_order_relaxed);
    if (cur == h)
      return false;
    if (cur == 0) {
      u64 zero = 0;
      if (hashes[k].compare_exchange_strong(zero, h))
        return true;
      if (zero == h)
        return false;
    }
  }
  return false;
}

void copyTo(char* dst, std::size_t cap, const std::string& s) {
  std::size_t n = std::min(cap - 1, s.size());
  std::memcpy(dst, s.data(), n);
  dst[n] = 0;
}

unsigned sizeOf(u64 idx) {
  // small cases first, then cycle through all the sizes
  if (idx < 64)
    return static_cast<unsigned>(idx);
  return static_cast<unsigned>((idx * 37) % 101);
}
u64 seedOf(u64 seed, const Test& t, u64 idx) { return mix(mix(seed ^ hashStr(t.name)) ^ mix(idx)); }

Status runOne(const Test& t, Case& c, std::string& msg) {
  try {
    t.fn(c);
    return ST_PASS;
  } catch (const Discard&) {
    return ST_DISCARD;
  } catch (const Failure& e) {
    msg = e.msg;
  } catch (const std::exception& e) {
    msg = std::string("unexpected exception ") + typeid(e).name() + ": " + e.what();
  } catch (...) {
    msg = "unexpected exception of unknown type";
  }
  return ST_FAIL;
}

std::string readFile(const std::string& p, std::size_t cap) {
  std::ifstream in(p);
  std::string   s((std::istreambuf_iterator<char>(in)), std::istreambuf_iterator<char>());
  if (s.size() > cap)
    s = s.substr(0, cap) + "...";
  return s;
}

void redirect(const std::string& p) {
  int fd = open(p.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600);
  if (fd >= 0) {
    dup2(fd, 2);
    dup2(fd, 1);
    close(fd);
  }
}

bool bad(Status s) { return s == ST_FAIL || s == ST_CRASH || s == ST_HANG; }

struct Run {
  Status           status = ST_NONE;
  std::string      msg, desc, err;
  std::vector<u64> choices;
};

// Runs fn in a child; it must set sh->status
Run inChild(double hang_s, const std::function<void()>& fn) {
  Run r;
  sh->status     = ST_NONE;
  sh->msg[0]     = 0;
  sh->desc[0]    = 0;
  sh->live_count = 0;
  std::string errfile = g_scratch_root + "/child.err";
  fflush(nullptr);
  pid_t pid = fork();
  if (pid < 0) {
    perror("fork");
    exit(2);
  }
  if (pid == 0) {
    prctl(PR_SET_PDEATHSIG, SIGKILL);
    g_scratch.clear();
    redirect(errfile);
    fn();
    _exit(0);
  }
  double t0 = now();
  int    ws = 0;
  bool   hang = false;
  for (;;) {
    pid_t p = waitpid(pid, &ws, WNOHANG);
    if (p == pid)
      break;
    if (now() - t0 > hang_s) {
      kill(pid, SIGKILL);
      waitpid(pid, &ws, 0);
      hang = true;
      break;
    }
    usleep(now() - t0 < 0.02 ? 200 : 2000);
  }
  rmTree(g_scratch_root + "/p" + std::to_string(pid));
  r.choices.assign(liveData, liveData + sh->live_count);
  r.desc = sh->desc;
  r.msg  = sh->msg;
  if (hang) {
    r.status = ST_HANG;
    r.msg    = "did not terminate";
  } else if (!WIFEXITED(ws) || WEXITSTATUS(ws) != 0 || sh->status == ST_NONE) {
    r.status = ST_CRASH;
    r.err    = readFile(errfile, 6000);
    r.msg    = WIFSIGNALED(ws) ? "killed by signal " + std::to_string(WTERMSIG(ws))
                               : "process ended with status " + std::to_string(WEXITSTATUS(ws));
    auto l = r.err.find("ERROR: AddressSanitizer");
    if (l == std::string::npos)
      l = r.err.find("runtime error");
    if (l == std::string::npos)
      l = r.err.find("WARNING: ThreadSanitizer");
    if (l == std::string::npos)
      l = r.err.find("ssertion");
    if (l != std::string::npos) {
      auto b = r.err.rfind('\n', l);
      b = b == std::string::npos ? 0 : b + 1;
      r.msg += ": " + r.err.substr(b, r.err.find('\n', l) - b).substr(0, 300);
    }
  } else {
    r.status = static_cast<Status>(sh->status.load());
  }
  return r;
}

void finishChild(Case& c, Status s, const std::string& msg) {
  copyTo(sh->msg, sizeof(sh->msg), msg);
  copyTo(sh->desc, sizeof(sh->desc), c.description());
  sh->status = s;
}

Run runSeed(const Test& t, u64 seed, u64 idx, bool verbose) {
  return inChild(t.opt.hang_s, [&] {
    live().capacity = LIVE_CAP;
    live().count    = &sh->live_count;
    live().data     = liveData;
    live().desc     = sh->desc;
    Case        c(seedOf(seed, t, idx), sizeOf(idx), verbose);
    std::string msg;
    Status      s = runOne(t, c, msg);
    finishChild(c, s, msg);
  });
}
Run runChoices(const Test& t, const std::vector<u64>& ch, unsigned size, bool verbose, double hang_s) {
  return inChild(hang_s, [&] {
    live().capacity = LIVE_CAP;
    live().count    = &sh->live_count;
    live().data     = liveData;
    live().desc     = sh->desc;
    Case        c(ch, size, verbose);
    std::string msg;
    Status      s = runOne(t, c, msg);
    finishChild(c, s, msg);
  });
}

// A case of a history: one process runs several of them, so that what one leaves behind can be seen by the next
struct Item {
  unsigned         size = 0;
  std::vector<u64> choices;
};

// Ends with the first case that fails, whose number is put in sh->failing
template <typename Make>
Run runMany(const Test& t, std::size_t n, double hang_s, const Make& make, std::vector<Item>* used = nullptr) {
  std::string file = g_scratch_root + "/history";
  Run         r    = inChild(hang_s, [&] {
    live().capacity = LIVE_CAP;
    live().count    = &sh->live_count;
    live().data     = liveData;
    live().desc     = sh->desc;
    std::ofstream o;
    if (used)
      o.open(file);
    for (std::size_t k = 0; k < n; ++k) {
      sh->failing    = k;
      sh->live_count = 0;
      sh->desc[0]    = 0;
      std::string           msg;
      std::unique_ptr<Case> c      = make(k, k + 1 == n);
      Status                status = runOne(t, *c, msg);
      if (used) {
        for (u64 x : c->choices())
          o << " " << x;
        o << std::endl;
      }
      if (bad(status) || k + 1 == n) {
        finishChild(*c, status, msg);
        return;
      }
    }
  });
  if (used) {
    std::ifstream in(file);
    std::string   line;
    used->clear();
    while (std::getline(in, line)) {
      std::istringstream l(line);
      used->push_back({});
      u64 v;
      while (l >> v)
        used->back().choices.push_back(v);
    }
    unlink(file.c_str());
  }
  return r;
}
Run runItems(const Test& t, const std::vector<Item>& items, bool verbose, double hang_s) {
  return runMany(t, items.size(), hang_s, [&](std::size_t k, bool last) { return std::unique_ptr<Case>(new Case(items[k].choices, items[k].size, verbose && last)); });
}


// shortlex order of the choice sequences
bool simpler(const std::vector<u64>& a, const std::vector<u64>& b) { return a.size() != b.size() ? a.size() < b.size() : a < b; }

typedef std::function<Run(const std::vector<u64>&)> Runner;

std::vector<u64> shrink(const Runner& run, std::vector<u64> best, Status kind, double budget_s) {
  double   end = now() + budget_s;
  unsigned evals = 0;
  auto try_ = [&](const std::vector<u64>& cand) {
    if (now() > end || ++evals > 4000 || !simpler(cand, best))
      return false;
    Run r = run(cand);
    if (r.status != kind)
      return false;
    // what was really consumed may be shorter
    std::vector<u64> used = r.choices;
    best = (!used.empty() || cand.empty()) && simpler(used, cand) ? used : cand;
    return true;
  };
  bool progress = true;
  while (progress && now() < end && evals < 4000) {
    progress = false;
    for (std::size_t blk : {64, 16, 8, 4, 2, 1})
      for (std::size_t p = best.size(); p-- > 0 && now() < end;) {
        if (p + blk > best.size())
          continue;
        auto cand = best;
        cand.erase(cand.begin() + p, cand.begin() + p + blk);
        progress |= try_(cand);
      }
    for (std::size_t blk : {16, 4, 1})
      for (std::size_t p = 0; p + blk <= best.size() && now() < end; p += blk) {
        auto cand = best;
        bool any = false;
        for (std::size_t k = p; k < p + blk; ++k) {
          any |= cand[k] != 0;
          cand[k] = 0;
        }
        if (any)
          progress |= try_(cand);
      }
    for (std::size_t p = 0; p < best.size() && now() < end; ++p) {
      u64 lo = 0;
      while (p < best.size() && lo < best[p] && now() < end) {
        u64  mid  = lo + (best[p] - lo) / 2;
        auto cand = best;
        cand[p]   = mid;
        if (try_(cand))
          progress = true;
        else
          lo = mid + 1;
      }
    }
    // a smaller count together with the deletion of what it counted
    for (std::size_t p = 0; p < best.size() && now() < end; ++p)
      for (std::size_t blk = 1; blk <= 4; ++blk)
        for (std::size_t q = p + 1; q + blk <= best.size() && q < p + 12; ++q) {
          if (best[p] == 0)
            break;
          auto cand = best;
          cand[p]--;
          cand.erase(cand.begin() + q, cand.begin() + q + blk);
          if (try_(cand))
            progress = true;
        }
  }
  return best;
}

std::string jesc(const std::string& s) {
  std::string o;
  for (unsigned char ch : s) {
    if (ch == '"' || ch == '\\') {
      o += '\\';
      o += static_cast<char>(ch);
    } else if (ch == '\n')
      o += "\\n";
    else if (ch < 32 || ch > 126) {
      char b[8];
      snprintf(b, sizeof b, "\\u%04x", ch);
      o += b;
    } else
      o += static_cast<char>(ch);
  }
  return o;
}

const char* kindName(Status s) {
  return s == ST_FAIL ? "property check failed" : s == ST_CRASH ? "crash" : s == ST_HANG ? "hang" : "none";
}

struct Violation {
  std::string test, replay, msg;
};

std::string        g_prop = "P", g_variant = "asan", g_replay_dir = ".";
std::vector<Violation> g_violations;

// Shrinks, confirms and records. Returns false if the failure could not be reproduced
bool report(const Test& t, Run first, unsigned size) {
  std::vector<u64> ch = first.choices;
  Status kind = first.status;
  Run final = first;
  unsigned seen = 1, tried = 0;
  if (!t.opt.scheduled) {
    if (kind != ST_HANG)
      ch = shrink([&](const std::vector<u64>& x) { return runChoices(t, x, size, false, 10); }, ch, kind, 25);
    unsigned again = 0;
    for (unsigned k = 0; k < 3; ++k) {
      final = runChoices(t, ch, size, true, t.opt.hang_s);
      ++tried;
      again += bad(final.status);
      if (kind == ST_HANG && again == 2)
        break;
      if (!bad(final.status))
        break;
    }
    if (again < (kind == ST_HANG ? 2u : 3u))
      return false;
    seen = again;
  } else {
    // look for a second occurrence; the failure of a sound oracle is reported even if it does not come back
    double end = now() + 60;
    while (now() < end && tried < 300) {
      Run r = runChoices(t, ch, size, true, t.opt.hang_s);
      ++tried;
      if (bad(r.status)) {
        final = r;
        ++seen;
        if (seen >= 2)
          break;
      }
    }
    if (seen < 2 && kind == ST_HANG)
      return false;
  }
  mkdir(g_replay_dir.c_str(), 0755);
  char name[64];
  snprintf(name, sizeof name, "-%08x.txt", static_cast<unsigned>(hashChoices(7, ch)));
  std::string   path = g_replay_dir + "/" + g_prop + "-" + t.name + name;
  std::ofstream o(path);
  o << "pbt-replay 1\nproperty " << g_prop << "\nvariant " << g_variant << "\ntest " << t.name << "\nsize " << size << "\nchoices";
  for (u64 x : ch)
    o << " " << x;
  o << "\n---\nkind: " << kindName(final.status) << "\nreproduced: " << seen << " of " << (tried + (t.opt.scheduled ? 1 : 0)) << " runs\nmessage: " << final.msg
    << "\ninput:\n" << final.desc << "\n" << final.err << "\n";
  g_violations.push_back({t.name, path, std::string(kindName(final.status)) + ": " + final.msg});
  fprintf(stderr, "[%s] %s: %s\n%s\n", t.name.c_str(), kindName(final.status), final.msg.c_str(), final.desc.substr(0, 3000).c_str());
  return true;
}

// The failure of a case which passes alone: looks for the cases before it, in the same process, which make it
// fail, and records the history. Returns false if it could not be reproduced.
bool reportHistory(const Test& t, u64 seed, u64 idx, unsigned W) {
  double end   = now() + 150;
  auto   limit = [&] { return std::max(1., end - now()); };
  auto   seeds = [&](const std::vector<u64>& l, std::vector<Item>* used) {
    return runMany(t, l.size(), limit(), [&](std::size_t k, bool) { return std::unique_ptr<Case>(new Case(seedOf(seed, t, l[k]), sizeOf(l[k]), false)); }, used);
  };
  std::vector<u64> all;
  for (u64 k = idx % W; k <= idx; k += W)
    all.push_back(k);
  std::vector<u64> l;
  Run              r;
  for (std::size_t n = 2;; n *= 2) {
    l.assign(all.size() > n ? all.end() - static_cast<long>(n) : all.begin(), all.end());
    r = seeds(l, nullptr);
    if ((r.status == ST_FAIL || r.status == ST_CRASH) || n >= all.size() || now() > end)
      break;
  }
  if (r.status != ST_FAIL && r.status != ST_CRASH)
    return false;
  Status kind = r.status;
  l.resize(sh->failing + 1);
  // fewer cases
  for (std::size_t blk = l.size() / 2; blk >= 1 && now() < end - 60; blk /= 2)
    for (std::size_t p = 0; p + 1 < l.size() && now() < end - 60;) {
      std::vector<u64> cand(l);
      cand.erase(cand.begin() + static_cast<long>(p), cand.begin() + static_cast<long>(std::min(p + blk, l.size() - 1)));
      if (seeds(cand, nullptr).status == kind) {
        cand.resize(sh->failing + 1);
        l = cand;
      } else
        p += blk;
    }
  std::vector<Item> items;
  r = seeds(l, &items);
  if (r.status != kind)
    return false;
  if (items.size() + 1 == l.size())  // the last one crashed
    items.push_back({0, r.choices});
  if (items.size() != l.size())
    return false;
  for (std::size_t k = 0; k < l.size(); ++k)
    items[k].size = sizeOf(l[k]);
  // simpler ones
  if (items.size() <= 4)
    for (std::size_t k = items.size(); k-- > 0 && now() < end - 20;) {
      std::vector<Item> cand(items);
      items[k].choices = shrink([&](const std::vector<u64>& x) {
        cand[k].choices = x;
        Run y = runItems(t, cand, false, 20);
        if (sh->failing + 1 != cand.size())
          y.status = ST_NONE;
        if (k + 1 != cand.size())
          y.choices = x;
        return y;
      }, items[k].choices, kind, 15);
    }
  Run final;
  for (unsigned k = 0; k < 3; ++k) {
    final = runItems(t, items, true, 60);
    if (final.status != kind)
      return false;
  }
  mkdir(g_replay_dir.c_str(), 0755);
  char name[64];
  snprintf(name, sizeof name, "-%08x.txt", static_cast<unsigned>(hashChoices(items.size(), items.back().choices)));
  std::string   path = g_replay_dir + "/" + g_prop + "-" + t.name + name;
  std::ofstream o(path);
  o << "pbt-replay 1\nproperty " << g_prop << "\nvariant " << g_variant << "\ntest " << t.name;
  for (std::size_t k = 0; k < items.size(); ++k) {
    if (k + 1 < items.size())
      o << "\nbefore " << items[k].size;
    else
      o << "\nsize " << items[k].size << "\nchoices";
    for (u64 x : items[k].choices)
      o << " " << x;
  }
  o << "\n---\nkind: " << kindName(kind) << "\nreproduced: 3 of 3 runs, after " << items.size() - 1 << " other cases in the same process\nmessage: " << final.msg << "\ninput:\n"
    << final.desc << "\n" << final.err << "\n";
  g_violations.push_back({t.name, path, std::string(kindName(kind)) + ": " + final.msg});
  fprintf(stderr, "[%s] %s, after %zu other cases: %s\n%s\n", t.name.c_str(), kindName(kind), items.size() - 1, final.msg.c_str(), final.desc.substr(0, 3000).c_str());
  return true;
}

bool parseReplay(const std::string& path, std::string& test, unsigned& size, std::vector<u64>& ch, std::vector<Item>& before) {
  std::ifstream in(path);
  std::string   line;
  if (!std::getline(in, line) || line.compare(0, 10, "pbt-replay") != 0)
    return false;
  while (std::getline(in, line) && line != "---") {
    std::istringstream s(line);
    std::string        k;
    s >> k;
    if (k == "test")
      s >> test;
    else if (k == "size")
      s >> size;
    else if (k == "before") {
      Item i;
      u64  v;
      s >> i.size;
      while (s >> v)
        i.choices.push_back(v);
      before.push_back(i);
    } else if (k == "choices") {
      u64 v;
      while (s >> v)
        ch.push_back(v);
    }
  }
  return !test.empty();
}

void worker(const Test& t, u64 seed, unsigned w, unsigned W, u64 N, double deadline) {
  WorkerSlot& s = sh->w[w];
  std::map<std::string, u64> labels;
  // failures are described by the parent
  redirect(g_scratch_root + "/w" + std::to_string(w) + ".err");
  u64 salt = hashStr(t.name);
  for (u64 idx = w; idx < N; idx += W) {
    if (sh->stop.load(std::memory_order_relaxed) || now() > deadline)
      break;
    s.idx   = idx;
    s.start = now();
    Case        c(seedOf(seed, t, idx), sizeOf(idx), false);
    std::string msg;
    Status      st = runOne(t, c, msg);
    if (st == ST_FAIL) {
      s.fail_idx = idx;
      s.failed   = 1;
      sh->stop   = 1;
      s.done++;
      break;
    }
    s.done++;
    if (st == ST_DISCARD) {
      s.discards++;
      continue;
    }
    if (c.isNontrivial()) {
      s.nontrivial++;
      if (insertHash(hashChoices(salt, c.choices()))) {
        sh->distinct++;
        u64 k = s.nsample;
        // samples from different phases of the run
        if (k < NSAMPLE && idx >= k * (N / NSAMPLE)) {
          s.sample[k] = idx;
          s.nsample++;
        }
      }
    }
    for (auto& l : c.labels())
      labels[l]++;
  }
  std::ofstream o(g_scratch_root + "/labels." + std::to_string(w));
  for (auto& p : labels)
    o << p.second << " " << p.first << "\n";
  o.close();
  rmTree(g_scratch);
  s.running = 0;
}

}  // namespace

int main(int argc, char** argv) {
  std::map<std::string, std::string> a;
  for (int k = 1; k + 1 < argc; k += 2)
    a[argv[k]] = argv[k + 1];
  std::string tier = a.count("--tier") ? a["--tier"] : "quick";
  u64         seed = a.count("--seed") ? std::stoull(a["--seed"]) : 1;
  double      cap  = a.count("--cap") ? std::stod(a["--cap"]) : 45;
  double      mult = a.count("--mult") ? std::stod(a["--mult"]) : 1;
  std::string only = a.count("--only") ? a["--only"] : "";
  unsigned    W    = a.count("--workers") ? std::stoul(a["--workers"]) : std::max(1l, sysconf(_SC_NPROCESSORS_ONLN));
  if (a.count("--prop")) g_prop = a["--prop"];
  if (a.count("--variant")) g_variant = a["--variant"];
  if (a.count("--replay-dir")) g_replay_dir = a["--replay-dir"];
  W = std::min(W, 8u);
  signal(SIGPIPE, SIG_IGN);
  makeScratchRoot();
  sh       = new (shmap(sizeof(Shared))) Shared();
  liveData = static_cast<u64*>(shmap(LIVE_CAP * sizeof(u64)));
  hashes   = static_cast<std::atomic<u64>*>(shmap(HASH_CAP * sizeof(u64)));

  if (a.count("--list")) {
    for (auto& t : registry())
      std::cout << t.name << " " << (t.opt.fuzz ? "fuzz" : "nofuzz") << "\n";
    rmTree(g_scratch_root);
    return 0;
  }
  if (a.count("--replay")) {
    std::string      test;
    unsigned         size = 0;
    std::vector<u64> ch;
    int              rc = 2;
    std::vector<Item> items;
    if (parseReplay(a["--replay"], test, size, ch, items))
      for (auto& t : registry())
        if (t.name == test) {
          if (a.count("--shrink")) {
            Run r = runChoices(t, ch, size, true, t.opt.hang_s);
            rc    = bad(r.status) && report(t, r, size) ? 1 : 0;
            for (auto& v : g_violations)
              std::cout << "REPLAY " << v.replay << "\n";
            continue;
          }
          rc = 0;
          unsigned runs = t.opt.scheduled ? 300 : 1;
          if (!items.empty())
            items.push_back({size, ch});
          for (unsigned k = 0; k < runs; ++k) {
            Run r = items.empty() ? runChoices(t, ch, size, true, t.opt.hang_s) : runItems(t, items, true, 300);
            if (k == 0 || bad(r.status))
              std::cout << r.desc << "\n" << kindName(r.status) << ": " << r.msg << "\n" << r.err << "\n";
            if (bad(r.status)) {
              rc = 1;
              break;
            }
          }
        }
    rmTree(g_scratch_root);
    return rc;
  }

  std::ostringstream js;
  js << "{\"variant\": \"" << g_variant << "\", \"tests\": [";
  u64    total = 0, distinct = 0;
  double begin = now();
  bool   first_test = true;
  int    unconfirmed = 0;
  std::vector<const Test*> tests;
  for (auto& t : registry())
    if (only.empty() || t.name == only)
      tests.push_back(&t);
  std::size_t left = tests.size();
  for (const Test* tp : tests) {
    const Test& t  = *tp;
    u64         N  = static_cast<u64>(std::max(1., (tier == "quick" ? t.opt.quick : t.opt.thorough) * mult));
    unsigned    tw = t.opt.workers ? std::min(W, t.opt.workers) : W;
    double      t0 = now();
    // no test may starve the following ones, unused time is passed on
    double deadline = t0 + std::max(1., std::min(begin + cap - t0, (begin + cap - t0) / left * 2.));
    --left;
    sh->stop     = 0;
    sh->distinct = 0;
    for (unsigned w = 0; w < tw; ++w) {
      WorkerSlot& s = sh->w[w];
      s.idx = 0; s.start = now(); s.done = 0; s.discards = 0; s.nontrivial = 0; s.running = 1; s.failed = 0; s.nsample = 0;
    }
    fflush(nullptr);
    std::vector<pid_t> pid(tw);
    for (unsigned w = 0; w < tw; ++w) {
      pid[w] = fork();
      if (pid[w] < 0) {
        perror("fork");
        rmTree(g_scratch_root);
        return 2;
      }
      if (pid[w] == 0) {
        prctl(PR_SET_PDEATHSIG, SIGKILL);
        g_scratch.clear();
        worker(t, seed, w, tw, N, deadline);
        _exit(0);
      }
    }
    std::vector<std::pair<u64, Status>> fails;
    std::vector<bool> live_(tw, true);
    unsigned alive = tw;
    while (alive) {
      bool any = false;
      for (unsigned w = 0; w < tw; ++w) {
        if (!live_[w])
          continue;
        int ws;
        if (waitpid(pid[w], &ws, WNOHANG) == pid[w]) {
          any = true;
          live_[w] = false;
          --alive;
          rmTree(g_scratch_root + "/p" + std::to_string(pid[w]));
          if (sh->w[w].failed)
            fails.push_back({sh->w[w].fail_idx, ST_FAIL});
          else if (sh->w[w].running) {
            fails.push_back({sh->w[w].idx, ST_CRASH});
            sh->stop = 1;
          }
        } else if (now() - sh->w[w].start.load() > t.opt.hang_s) {
          kill(pid[w], SIGKILL);
          waitpid(pid[w], &ws, 0);
          live_[w] = false;
          --alive;
          sh->stop = 1;
          fails.push_back({sh->w[w].idx, ST_HANG});
        }
      }
      if (!any)
        usleep(2000);
    }
    std::sort(fails.begin(), fails.end());
    u64 done = 0, disc = 0, nt = 0;
    std::map<std::string, u64> labels;
    std::vector<u64> samples;
    for (unsigned w = 0; w < tw; ++w) {
      done += sh->w[w].done;
      disc += sh->w[w].discards;
      nt += sh->w[w].nontrivial;
      for (u64 k = 0; k < sh->w[w].nsample && samples.size() < 3; ++k)
        if ((k + w) % NSAMPLE == 1 || tw == 1)
          samples.push_back(sh->w[w].sample[k]);
      std::string   lf = g_scratch_root + "/labels." + std::to_string(w);
      std::ifstream in(lf);
      u64           cnt;
      std::string   l;
      while (in >> cnt && std::getline(in, l))
        labels[l.substr(1)] += cnt;
      in.close();
      unlink(lf.c_str());
    }
    bool reported = false;
    for (auto& f : fails) {
      if (reported || now() - begin > cap + 360)
        break;
      Run r = runSeed(t, seed, f.first, true);
      if (t.opt.scheduled && !bad(r.status)) {
        // the schedule did not come back: try again, then keep the observation itself
        double end = now() + 40;
        for (unsigned k = 0; k < 200 && now() < end && !bad(r.status); ++k)
          r = runSeed(t, seed, f.first, true);
        if (!bad(r.status) && f.second != ST_HANG) {
          r.status = f.second;
          r.msg    = "observed once, not reproduced in the re-runs";
          for (unsigned w = 0; w < tw; ++w)
            r.err += readFile(g_scratch_root + "/w" + std::to_string(w) + ".err", 3000);
        }
      }
      // the code may be random by itself: it can take some attempts
      for (unsigned k = 0; k < 20 && !t.opt.scheduled && f.second == ST_FAIL && !bad(r.status) && now() - begin < cap + 60; ++k)
        r = runSeed(t, seed, f.first, true);
      if (bad(r.status) && report(t, r, sizeOf(f.first)))
        reported = true;
      else if (!t.opt.scheduled && f.second != ST_HANG && now() - begin < cap + 200 && reportHistory(t, seed, f.first, tw))
        reported = true;
      else {
        ++unconfirmed;
        fprintf(stderr, "[%s] case %llu: %s seen by a worker, not confirmed\n", t.name.c_str(), static_cast<unsigned long long>(f.first),
                kindName(f.second));
        for (unsigned w = 0; w < tw && &f == &fails[0]; ++w) {
          std::string e = readFile(g_scratch_root + "/w" + std::to_string(w) + ".err", 1500);
          if (!e.empty()) {
            fprintf(stderr, "%s\n", e.c_str());
            break;
          }
        }
      }
    }
    js << (first_test ? "" : ", ") << "{\"name\": \"" << t.name << "\", \"evaluations\": " << done << ", \"planned\": " << N << ", \"discarded\": " << disc
       << ", \"nontrivial\": " << nt << ", \"distinct_nontrivial\": " << sh->distinct.load() << ", \"wall_s\": " << (now() - t0) << ", \"labels\": {";
    bool fl = true;
    for (auto& p : labels) {
      js << (fl ? "" : ", ") << "\"" << jesc(p.first) << "\": " << p.second;
      fl = false;
    }
    js << "}, \"samples\": [";
    bool fs = true;
    total += done;
    distinct += sh->distinct.load();
    for (u64 idx : samples) {
      Run r = runSeed(t, seed, idx, true);
      if (r.desc.empty())
        continue;
      js << (fs ? "" : ", ") << "\"" << jesc(t.name + " #" + std::to_string(idx) + ": " + r.desc.substr(0, 700)) << "\"";
      fs = false;
    }
    js << "]}";
    first_test = false;
    // one counterexample decides; the other tests may well hang in the same defect
    if (reported)
      break;
  }
  js << "], \"known\": [";
  bool fk = true;
  for (auto& k : knownRegistry()) {
    Run r = inChild(30, [&] {
      Status      s = ST_PASS;
      std::string msg;
      try {
        k.fn();
      } catch (const std::exception& e) {
        s   = ST_FAIL;
        msg = e.what();
      }
      copyTo(sh->msg, sizeof(sh->msg), msg);
      sh->status = s;
    });
    js << (fk ? "" : ", ") << "{\"id\": \"" << jesc(k.id) << "\", \"what\": \"" << jesc(k.what) << "\", \"fails\": " << (bad(r.status) ? "true" : "false")
       << ", \"msg\": \"" << jesc(r.msg) << "\"}";
    fk = false;
  }
  js << "], \"violations\": [";
  for (std::size_t k = 0; k < g_violations.size(); ++k)
    js << (k ? ", " : "") << "{\"test\": \"" << jesc(g_violations[k].test) << "\", \"replay\": \"" << jesc(g_violations[k].replay) << "\", \"msg\": \""
       << jesc(g_violations[k].msg) << "\"}";
  js << "], \"unconfirmed\": " << unconfirmed << ", \"evaluations\": " << total << ", \"distinct_nontrivial\": " << distinct << ", \"wall_s\": " << (now() - begin)
     << "}\n";
  if (a.count("--out"))
    std::ofstream(a["--out"]) << js.str();
  else
    std::cout << js.str();
  rmTree(g_scratch_root);
  return g_violations.empty() ? 0 : 1;
}
#endif
