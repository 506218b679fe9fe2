// C32: the configuration manager registers, orders and initializes configurations
#include "Configuration/ConfigManager.h"
#include "Configuration/Configuration.h"
#include "common/pbt.h"
#include <sstream>

using namespace Euclid::Configuration;
using pbt::Case;
namespace po = boost::program_options;
using Values = std::map<std::string, po::variable_value>;
using State  = Configuration::State;

namespace {

constexpr int N = 8;

enum Phase { PRE, INIT, POST };
struct Event {
  int    who;
  Phase  phase;
  State  state;
  bool   deps_ready;
  Values values;
};

// What the configurations of a manager are to do
struct World {
  std::vector<std::vector<int>>                                      deps{N};
  std::vector<std::vector<std::pair<std::string, std::string>>>      options{N};  // group, option
  std::vector<Event>                                                 log;
  std::vector<int>                                                   constructed = std::vector<int>(N, 0);
  std::vector<void*>                                                 object      = std::vector<void*>(N, nullptr);
  int                                                                fail_who = -1, fail_phase = PRE, fail_ctor = -1;
};

std::map<long, World*> worlds;

struct Failure : std::runtime_error {
  using std::runtime_error::runtime_error;
};

template <int I>
struct Conf : public Configuration {
  World& w;
  Conf(long id) : Configuration(id), w(*worlds.at(id)) {
    w.object[I] = this;
    for (int j : w.deps[I])
      switch (j) {
      case 0: declareDependency<Conf<0>>(); break;
      case 1: declareDependency<Conf<1>>(); break;
      case 2: declareDependency<Conf<2>>(); break;
      case 3: declareDependency<Conf<3>>(); break;
      case 4: declareDependency<Conf<4>>(); break;
      case 5: declareDependency<Conf<5>>(); break;
      case 6: declareDependency<Conf<6>>(); break;
      default: declareDependency<Conf<7>>();
      }
    if (w.fail_ctor == I)
      throw Failure("cannot be constructed");
    ++w.constructed[I];
  }
  std::map<std::string, OptionDescriptionList> getProgramOptions() override {
    std::map<std::string, OptionDescriptionList> r;
    for (auto& o : w.options[I])
      r[o.first].push_back(po::option_description(o.second.c_str(), po::value<std::string>(), "text"));
    return r;
  }
  template <int J>
  bool ready() {
    auto& d = getDependency<Conf<J>>();
    return static_cast<void*>(&d) == w.object[J] && d.getCurrentState() >= State::INITIALIZED;
  }
  void event(Phase p, const Values& v) {
    Event e{I, p, getCurrentState(), true, v};
    if (p == INIT)
      for (int j : w.deps[I]) {
        bool r = false;
        switch (j) {
        case 0: r = ready<0>(); break;
        case 1: r = ready<1>(); break;
        case 2: r = ready<2>(); break;
        case 3: r = ready<3>(); break;
        case 4: r = ready<4>(); break;
        case 5: r = ready<5>(); break;
        case 6: r = ready<6>(); break;
        default: r = ready<7>();
        }
        e.deps_ready = e.deps_ready && r;
      }
    w.log.push_back(e);
    if (w.fail_who == I && w.fail_phase == p)
      throw Failure("failed");
  }
  void preInitialize(const Values& v) override { event(PRE, v); }
  void initialize(const Values& v) override { event(INIT, v); }
  void postInitialize(const Values& v) override { event(POST, v); }
};

template <int... I>
struct Table {
  static void registerOne(ConfigManager& m, int k) {
    using F = void (*)(ConfigManager&);
    static const F f[] = {[](ConfigManager& x) { x.registerConfiguration<Conf<I>>(); }...};
    f[k](m);
  }
  static void* get(ConfigManager& m, int k) {
    using F = void* (*)(ConfigManager&);
    static const F f[] = {[](ConfigManager& x) -> void* { return &x.getConfiguration<Conf<I>>(); }...};
    return f[k](m);
  }
  static State state(ConfigManager& m, int k) {
    using F = State (*)(ConfigManager&);
    static const F f[] = {[](ConfigManager& x) { return x.getConfiguration<Conf<I>>().getCurrentState(); }...};
    return f[k](m);
  }
  template <int J>
  static void dependencyOf(ConfigManager& m, int k) {
    using F = void (*)(ConfigManager&);
    static const F f[] = {[](ConfigManager& x) { x.registerDependency<Conf<J>, Conf<I>>(); }...};
    f[k](m);
  }
  static void dependency(ConfigManager& m, int from, int to) {
    using F = void (*)(ConfigManager&, int);
    static const F f[] = {&dependencyOf<I>...};
    f[from](m, to);
  }
};
using Confs = Table<0, 1, 2, 3, 4, 5, 6, 7>;

long           next_id = -5;
std::set<long> used_ids;

struct Manager {
  long                          id;
  ConfigManager*                m;
  World                         w;
  std::set<int>                 registered;
  std::set<std::pair<int, int>> extra;
  bool                          closed = false;
  std::string                   story;

  bool add(int k) {
    if (!registered.insert(k).second)
      return true;
    bool ok = true;
    for (int j : w.deps[k])
      ok = ok && add(j);
    if (!ok || w.fail_ctor == k)
      registered.erase(k);
    return ok && w.fail_ctor != k;
  }
  std::set<std::pair<int, int>> edges() const {
    std::set<std::pair<int, int>> e;
    for (int k : registered)
      for (int j : w.deps[k])
        e.insert({k, j});
    for (auto& x : extra)
      if (registered.count(x.first) && registered.count(x.second))
        e.insert(x);
    return e;
  }
  bool cyclic() const {
    auto e    = edges();
    auto left = registered;
    for (bool more = true; more;) {
      more = false;
      for (int k : left)
        if (std::none_of(e.begin(), e.end(), [&](const std::pair<int, int>& x) { return x.first == k && left.count(x.second); })) {
          left.erase(k);
          more = true;
          break;
        }
    }
    return !left.empty();
  }
};

void checkOptions(Manager& x, const po::options_description& d) {
  std::multiset<std::string> want, got;
  std::set<std::string>      want_in, got_in;  // group/option as printed
  for (int k : x.registered)
    for (auto& o : x.w.options[k]) {
      want.insert(o.second);
      want_in.insert(o.first + "/" + o.second);
    }
  for (auto& o : d.options())
    got.insert(o->long_name());
  CHECK(got == want, "the options of manager " << x.id << " are others: " << got.size() << " instead of " << want.size());
  std::stringstream s;
  s << d;
  std::string line, group;
  while (std::getline(s, line)) {
    if (line.size() > 1 && line[0] != ' ' && line.back() == ':')
      group = line.substr(0, line.size() - 1);
    auto p = line.find("--");
    if (p != std::string::npos) {
      auto e = line.find(' ', p);
      got_in.insert(group + "/" + line.substr(p + 2, e - p - 2));
    }
  }
  CHECK(got_in == want_in, "the options are in other groups");
}

}  // namespace

PBT_TEST(manager, pbt::cases(40000, 400000)) {
  std::size_t          managers = c.n(1, 2);
  std::vector<Manager> ms(managers);
  bool                 acyclic = c.b(3, 4), many = c.b(1, 8);
  for (auto& x : ms) {
    x.id = next_id;
    next_id += 1;
    // sometimes ids which are the same in their lower bits
    if (&x != &ms[0] && c.b(1, 4)) {
      long other = ms[0].id + c.pick({1L << 32, -(1L << 32), 1L << 40, 1L << 16, 1L << 62, 1L << 52, 1L << 20});
      if (!used_ids.count(other))
        x.id = other;
    }
    used_ids.insert(x.id);
    std::vector<int> rank(N);
    for (int k = 0; k < N; ++k)
      rank[k] = k;
    c.shuffle(rank);
    for (int k = 0; k < N; ++k)
      for (int j = 0; j < N; ++j)
        if ((!acyclic || rank[j] < rank[k]) && (acyclic || c.b(1, 3)) && c.b(1, many ? 2 : 5))
          x.w.deps[k].push_back(j);
    for (int k = 0; k < N; ++k)
      c.shuffle(x.w.deps[k]);
    for (int k = 0; k < N; ++k)
      for (std::size_t o = c.n(0, 2); o > 0; --o)
        x.w.options[k].push_back({c.pick({std::string("Input options"), std::string("Output"), std::string("Other things")}), "opt-" + std::to_string(k) + "-" + std::to_string(o)});
    // options whose names begin like those of others
    for (int k = 0; k < N; ++k)
      if (!x.w.options[k].empty() && c.b(1, 4)) {
        auto first = x.w.options[k].front();
        x.w.options[k].insert(x.w.options[k].begin() + static_cast<std::ptrdiff_t>(c.n(0, x.w.options[k].size())), {c.b(1, 4) ? std::string("Output") : first.first, first.second + c.pick({"-name", "0"})});
      }
    if (c.b(1, 6)) {
      x.w.fail_who   = static_cast<int>(c.n(0, N - 1));
      x.w.fail_phase = static_cast<int>(c.n(0, 2));
    }
    if (acyclic && c.b(1, 6))
      x.w.fail_ctor = static_cast<int>(c.n(0, N - 1));
    worlds[x.id] = &x.w;
    x.m          = &ConfigManager::getInstance(x.id);
  }
  struct Clear {
    std::vector<Manager>& ms;
    ~Clear() {
      for (auto& x : ms)
        worlds.erase(x.id);
    }
  } clear{ms};
  std::string story;
  auto        say = [&](const Manager& x, const std::string& what) { story += " " + std::string(1, static_cast<char>('a' + (&x - &ms[0]))) + ":" + what; };
  c.describe([&](std::ostream& o) {
    for (auto& x : ms) {
      o << "{";
      for (int k = 0; k < N; ++k)
        if (!x.w.deps[k].empty()) {
          o << " " << k << "->";
          for (int j : x.w.deps[k])
            o << j;
        }
      o << "}";
    }
    o << story;
  });
  // registrations, in any order and more than once
  std::size_t ops = c.len(0, 12);
  for (std::size_t t = 0; t < ops; ++t) {
    auto& x = ms[c.n(0, managers - 1)];
    CHECK(&ConfigManager::getInstance(x.id) == x.m, "another manager for the same id");
    switch (c.weighted({5, 3, 1})) {
    case 0: {
      int k = static_cast<int>(c.n(0, N - 1));
      say(x, "reg" + std::to_string(k));
      if (x.add(k))
        Confs::registerOne(*x.m, k);
      else
        CHECK_THROWS(Confs::registerOne(*x.m, k), Failure, "the failure of a constructor is hidden");
      break;
    }
    case 1: {
      int from = static_cast<int>(c.n(0, N - 1)), to = static_cast<int>(c.n(0, N - 1));
      if (acyclic && (from == to)) 
        break;
      if (acyclic) {  // not against the order of the declared ones
        Manager probe = x;
        for (int k = 0; k < N; ++k)
          probe.registered.insert(k);
        probe.extra.insert({from, to});
        if (probe.cyclic())
          break;
      }
      say(x, "dep" + std::to_string(from) + std::to_string(to));
      Confs::dependency(*x.m, from, to);
      x.extra.insert({from, to});
      break;
    }
    default: {
      int k = static_cast<int>(c.n(0, N - 1));
      CHECK_THROWS(Confs::get(*x.m, k), Elements::Exception, "a configuration before the initialization");
    }
    }
  }
  if (managers == 2)
    CHECK(ms[0].m != ms[1].m, "the same manager for two ids");
  for (auto& x : ms) {
    for (int k = 0; k < N; ++k)
      CHECK(x.w.constructed[k] == (x.registered.count(k) ? 1 : 0), "configuration " << k << " was constructed " << x.w.constructed[k] << " times");
    c.nontrivial(x.edges().size() > 1);
    c.label("circular", x.cyclic());
  }
  bool cyclic = false;
  for (auto& x : ms) {
    say(x, "close");
    if (x.cyclic()) {
      cyclic = true;
      CHECK_THROWS(x.m->closeRegistration(), Elements::Exception, "circular dependencies");
      continue;
    }
    auto d = x.m->closeRegistration();
    checkOptions(x, d);
    if (c.b(1, 3))
      checkOptions(x, x.m->closeRegistration());
    int k = static_cast<int>(c.n(0, N - 1)), j = static_cast<int>(c.n(0, N - 1));
    CHECK_THROWS(Confs::registerOne(*x.m, k), Elements::Exception, "a registration after the end of it");
    CHECK_THROWS(Confs::dependency(*x.m, k, j), Elements::Exception, "a dependency after the end of the registration");
    CHECK_THROWS(Confs::get(*x.m, k), Elements::Exception, "a configuration before the initialization");
  }
  if (cyclic)
    return;
  for (auto& x : ms) {
    Values            values;
    std::string       value = "v" + std::to_string(c.n(0, 999));
    values["a-value"] = po::variable_value(boost::any(value), false);
    bool fails        = x.w.fail_who >= 0 && x.registered.count(x.w.fail_who);
    say(x, "init");
    c.label("a configuration fails", fails);
    if (fails)
      CHECK_THROWS(x.m->initialize(values), Failure, "the failure of a configuration is hidden");
    else
      x.m->initialize(values);
    auto                          edges = x.edges();
    std::vector<std::vector<int>> at(3, std::vector<int>(N, -1));
    int                           last = PRE;
    for (std::size_t t = 0; t < x.w.log.size(); ++t) {
      auto& e = x.w.log[t];
      CHECK(x.registered.count(e.who), "configuration " << e.who << " is not registered but called");
      CHECK(at[e.phase][e.who] < 0, "configuration " << e.who << " is called twice in phase " << e.phase);
      CHECK(e.phase >= last, "phase " << e.phase << " of configuration " << e.who << " comes after phase " << last);
      last              = e.phase;
      at[e.phase][e.who] = static_cast<int>(t);
      CHECK(e.state == (e.phase == PRE ? State::CONSTRUCTED : e.phase == INIT ? State::PRE_INITIALIZED : State::INITIALIZED), "configuration " << e.who << " has another state in phase " << e.phase);
      CHECK(e.deps_ready, "a dependency of configuration " << e.who << " is not initialized");
      CHECK(e.values.size() == 1 && e.values.count("a-value") && e.values.at("a-value").as<std::string>() == value, "configuration " << e.who << " got other values");
      if (e.phase == INIT)
        for (auto& d : edges)
          if (d.first == e.who)
            CHECK(at[INIT][d.second] >= 0, "configuration " << e.who << " is initialized before " << d.second);
      if (e.phase > PRE)
        for (int k : x.registered)
          CHECK(at[e.phase - 1][k] >= 0, "phase " << e.phase << " starts before configuration " << k << " is ready");
    }
    if (fails) {
      CHECK(!x.w.log.empty() && x.w.log.back().who == x.w.fail_who && x.w.log.back().phase == x.w.fail_phase, "the initialization went on after a failure");
      continue;
    }
    CHECK(x.w.log.size() == 3 * x.registered.size(), x.w.log.size() << " calls for " << x.registered.size() << " configurations");
    for (int k = 0; k < N; ++k) {
      if (!x.registered.count(k)) {
        CHECK_THROWS(Confs::get(*x.m, k), Elements::Exception, "configuration " << k << " is not registered");
        continue;
      }
      CHECK(Confs::get(*x.m, k) == x.w.object[k], "another object for configuration " << k);
      CHECK(Confs::state(*x.m, k) == State::FINAL, "configuration " << k << " is not final");
      CHECK(x.w.constructed[k] == 1, "configuration " << k << " was constructed again");
    }
    int k = static_cast<int>(c.n(0, N - 1));
    CHECK_THROWS(Confs::registerOne(*x.m, k), Elements::Exception, "a registration after the initialization");
  }
}
