// C10: a grid and all its slices address one block of cells, the first axis varying fastest
#include "GridContainer/GridContainer.h"
#include "GridContainer/GridIndexHelper.h"
#include "common/pbt.h"
#include <memory>
#include <unordered_map>

using namespace Euclid::GridContainer;
using pbt::Case;

namespace {

template <typename T>
T value(std::size_t v);
template <>
int value<int>(std::size_t v) { return static_cast<int>(v) * 3 - 20; }
template <>
double value<double>(std::size_t v) { return static_cast<double>(v) * 0.75 - 3.; }
template <>
std::string value<std::string>(std::size_t v) {
  std::string s = "knot ";
  s += static_cast<char>('A' + v / 26);
  s += static_cast<char>('a' + v % 26);
  return s;
}

template <typename T>
std::vector<T> knots(Case& c, bool sorted, bool duplicates, std::size_t max_size) {
  std::size_t              n = c.n(1, max_size);
  std::vector<std::size_t> codes;
  while (codes.size() < n) {
    std::size_t v = c.n(0, 40);
    if (duplicates || std::find(codes.begin(), codes.end(), v) == codes.end())
      codes.push_back(v);
    else
      codes.push_back(41 + codes.size());
  }
  if (sorted)
    std::sort(codes.begin(), codes.end());
  std::vector<T> r;
  for (auto v : codes)
    r.push_back(value<T>(v));
  return r;
}

// A cell manager of its own, as the documentation lets users write
struct Cells {
  typedef double                         data_type;
  typedef std::vector<double>::iterator  iterator;
  std::vector<double>                    data;
  explicit Cells(std::size_t n) : data(n) {}
  std::size_t   size() const { return data.size(); }
  iterator      begin() { return data.begin(); }
  iterator      end() { return data.end(); }
  double&       operator[](std::size_t i) { return data[i]; }
};

// A manager of more cells than can be kept in memory: only those which have been accessed are kept, and each of them
// starts with its own position as value
struct Virtual {
  typedef double data_type;
  struct iterator {
    Virtual*    manager;
    std::size_t position;
    iterator& operator++() {
      ++position;
      return *this;
    }
    iterator& operator+=(std::size_t d) {
      position += d;
      return *this;
    }
    iterator       operator+(std::size_t d) const { return {manager, position + d}; }
    std::ptrdiff_t operator-(const iterator& o) const {
      return static_cast<std::ptrdiff_t>(position) - static_cast<std::ptrdiff_t>(o.position);
    }
    double& operator*() const { return (*manager)[position]; }
    bool    operator==(const iterator& o) const { return position == o.position; }
    bool    operator!=(const iterator& o) const { return position != o.position; }
  };
  std::size_t                             total;
  std::unordered_map<std::size_t, double> cells;
  explicit Virtual(std::size_t n) : total(n) {}
  std::size_t size() const { return total; }
  iterator    begin() { return {this, 0}; }
  iterator    end() { return {this, total}; }
  double&     operator[](std::size_t i) {
    CHECK(i < total, "access to cell " << i << " of " << total);
    return cells.emplace(i, static_cast<double>(i)).first->second;
  }
};

template <typename Manager, typename... Ax>
struct World {
  typedef GridContainer<Manager, Ax...>   Grid;
  static constexpr std::size_t            N = sizeof...(Ax);
  typedef std::tuple<Ax...>               Values;
  typedef std::tuple<std::vector<Ax>...>  Knots;
  typedef std::array<std::size_t, N>      Index;
  template <std::size_t I>
  using At = typename std::tuple_element<I, Values>::type;
  using Seq = std::make_index_sequence<N>;

  struct View {
    std::unique_ptr<Grid>              grid;
    std::map<std::size_t, std::size_t> fixed;
  };

  Case&                    c;
  Knots                    m_knots;
  std::vector<std::string> m_names;
  Index                    m_sizes;
  std::vector<double>      m_cells;
  std::vector<View>        m_views;
  unsigned                 m_next = 0;

  explicit World(Case& cc) : c(cc) {}

  // compile time <- run time axis
  template <typename F, std::size_t... I>
  void onAxis(std::size_t axis, F f, std::index_sequence<I...>) {
    int dummy[] = {(axis == I ? (f(std::integral_constant<int, static_cast<int>(I)>()), 0) : 0)...};
    (void)dummy;
  }
  template <typename F>
  void onAxis(std::size_t axis, F f) { onAxis(axis, f, Seq()); }

  template <std::size_t... I>
  void init(std::index_sequence<I...>) {
    bool sorted = c.b(), dup = c.b(1, 4);
    std::size_t max_size = N == 1 ? 12 : N == 2 ? 6 : N == 3 ? 4 : 3;
    m_knots = Knots{knots<Ax>(c, sorted, dup, max_size)...};
    m_names = {("axis " + std::to_string(I))...};
    m_sizes = {std::get<I>(m_knots).size()...};
    std::size_t total = 1;
    for (auto s : m_sizes)
      total *= s;
    m_cells.assign(total, 0.);
    View v;
    if (c.b())
      v.grid.reset(new Grid(GridAxis<Ax>(m_names[I], std::get<I>(m_knots))...));
    else
      v.grid.reset(new Grid(std::make_tuple(GridAxis<Ax>(m_names[I], std::get<I>(m_knots))...)));
    m_views.push_back(std::move(v));
    c.describe([&](std::ostream& o) {
      o << "axes of";
      for (auto s : m_sizes)
        o << " " << s;
      o << (sorted ? ", sorted" : "") << (dup ? ", maybe repeated knots" : "");
    });
    auto helper = makeGridIndexHelper(m_views[0].grid->getAxesTuple());
    for (std::size_t i = 0; i < total; ++i) {
      Index idx = unravel(i);
      CHECK(helper.totalIndex(idx[I]...) == i && helper.totalIndexChecked(idx[I]...) == i, "index helper at cell " << i);
      for (std::size_t a = 0; a < N; ++a)
        CHECK(helper.axisIndex(a, i) == idx[a], "index helper, axis " << a << " of cell " << i);
    }
    CHECK(Grid::axisNumber() == N, "number of axes");
  }

  Index unravel(std::size_t i) const {
    Index r;
    for (std::size_t a = 0; a < N; ++a) {
      r[a] = i % m_sizes[a];
      i /= m_sizes[a];
    }
    return r;
  }
  std::size_t flat(const Index& idx) const {
    std::size_t r = 0;
    for (std::size_t a = N; a-- > 0;)
      r = r * m_sizes[a] + idx[a];
    return r;
  }
  // cells of a view, in the order of the iteration
  std::vector<std::size_t> selected(const std::map<std::size_t, std::size_t>& fixed) const {
    std::vector<std::size_t> r;
    for (std::size_t i = 0; i < m_cells.size(); ++i) {
      Index idx = unravel(i);
      bool  in  = true;
      for (auto& f : fixed)
        in = in && idx[f.first] == f.second;
      if (in)
        r.push_back(i);
    }
    return r;
  }
  std::string show(const View& v) const {
    std::string s = "grid";
    for (auto& f : v.fixed)
      s += " [axis " + std::to_string(f.first) + "=" + std::to_string(f.second) + "]";
    return s;
  }

  template <typename G, std::size_t... I>
  static auto cellAt(G& g, const Index& i, bool checked, std::index_sequence<I...>) -> decltype(g(i[I]...)) {
    return checked ? g.at(i[I]...) : g(i[I]...);
  }

  template <std::size_t I>
  void checkAxis(const View& v) {
    auto& ax = v.grid->template getAxis<I>();
    auto& tu = std::get<I>(v.grid->getAxesTuple());
    std::vector<At<I>> expected = std::get<I>(m_knots);
    auto               f        = v.fixed.find(I);
    if (f != v.fixed.end())
      expected = {expected[f->second]};
    CHECK(ax.name() == m_names[I] && tu.name() == m_names[I], show(v) << ": name of axis " << I);
    CHECK(ax.size() == expected.size() && tu.size() == expected.size(), show(v) << ": axis " << I << " has " << ax.size() << " knots instead of " << expected.size());
    CHECK(std::equal(expected.begin(), expected.end(), ax.begin()) && std::equal(expected.begin(), expected.end(), tu.begin()),
          show(v) << ": knots of axis " << I);
    CHECK(static_cast<std::size_t>(ax.end() - ax.begin()) == expected.size(), show(v) << ": iteration of axis " << I);
    CHECK(ax == tu && !(ax != tu), show(v) << ": comparison of axis " << I);
  }
  template <std::size_t... I>
  void checkAxes(const View& v, std::index_sequence<I...>) {
    int dummy[] = {(checkAxis<I>(v), 0)...};
    (void)dummy;
  }
  template <typename It, std::size_t... I>
  void checkPos(const View& v, const It& it, std::size_t cell, std::index_sequence<I...>) {
    Index idx = unravel(cell);
    // the index is one of the whole grid; a slice has a single knot on a fixed axis, so its index is left alone there
    bool ok_i[] = {(v.fixed.count(I) || it.template axisIndex<I>() == idx[I])...};
    bool ok_v[] = {(it.template axisValue<I>() == std::get<I>(m_knots)[idx[I]])...};
    for (std::size_t a = 0; a < N; ++a) {
      CHECK(ok_i[a], show(v) << ": index of axis " << a << " at cell " << cell);
      CHECK(ok_v[a], show(v) << ": value of axis " << a << " at cell " << cell);
    }
  }
  template <typename It>
  void checkIter(const View& v, It it, It end, const std::vector<std::size_t>& cells, const char* what) {
    std::size_t k = 0;
    for (; it != end; ++it, ++k) {
      CHECK(k < cells.size(), show(v) << ", " << what << ": more than the " << cells.size() << " cells");
      const It& cit = it;
      CHECK(*it == m_cells[cells[k]] && *cit == m_cells[cells[k]] && *(it.operator->()) == m_cells[cells[k]],
            show(v) << ", " << what << ": cell " << k << " is " << *it << " instead of " << m_cells[cells[k]]);
      checkPos(v, it, cells[k], Seq());
    }
    CHECK(k == cells.size(), show(v) << ", " << what << ": " << k << " cells instead of " << cells.size());
    CHECK(it == end, show(v) << ", " << what << ": end");
  }
  void checkView(const View& v) {
    Grid&       g  = *v.grid;
    const Grid& cg = g;
    auto        cells = selected(v.fixed);
    CHECK(g.size() == cells.size(), show(v) << ": size " << g.size() << " instead of " << cells.size());
    checkAxes(v, Seq());
    checkIter(v, g.begin(), g.end(), cells, "iteration");
    checkIter(v, cg.begin(), cg.end(), cells, "const iteration");
    checkIter(v, g.cbegin(), g.cend(), cells, "cbegin iteration");
    for (auto cell : cells) {
      Index idx = unravel(cell);
      for (auto& f : v.fixed)
        idx[f.first] = 0;
      for (bool checked : {false, true}) {
        CHECK(cellAt(cg, idx, checked, Seq()) == m_cells[cell], show(v) << ": value at cell " << cell);
        CHECK(&cellAt(cg, idx, checked, Seq()) == &cellAt(g, idx, checked, Seq()), show(v) << ": const and plain access differ");
      }
    }
  }
  void checkAll() {
    for (auto& v : m_views)
      checkView(v);
  }

  Index randomIndex(const View& v) {
    Index r;
    for (std::size_t a = 0; a < N; ++a)
      r[a] = v.fixed.count(a) ? 0 : c.n(0, m_sizes[a] - 1);
    return r;
  }
  std::size_t cellOf(const View& v, Index idx) const {
    for (auto& f : v.fixed)
      idx[f.first] = f.second;
    return flat(idx);
  }

  template <int I>
  std::size_t firstOf(std::size_t index) const {
    auto& k = std::get<I>(m_knots);
    return static_cast<std::size_t>(std::find(k.begin(), k.end(), k[index]) - k.begin());
  }

  template <std::size_t... I>
  void infimum(const View& v, std::index_sequence<I...>) {
    Values      coords;
    Index       expected{};
    std::size_t code[N] = {(static_cast<void>(I), c.n(0, 60))...};
    bool        sorted[] = {std::is_sorted(std::get<I>(m_knots).begin(), std::get<I>(m_knots).end())...};
    for (bool s : sorted)
      if (!s)
        return;
    coords = Values{value<Ax>(code[I])...};
    int dummy[] = {(expected[I] = greatestNotAbove<I>(v, std::get<I>(coords)), 0)...};
    (void)dummy;
    auto  got   = v.grid->infimum(coords);
    auto  got2  = v.grid->infimum(std::get<I>(coords)...);
    Index gi    = {std::get<I>(got)...};
    Index gi2   = {std::get<I>(got2)...};
    c.label("infimum");
    for (std::size_t a = 0; a < N; ++a)
      CHECK(gi[a] == expected[a] && gi2[a] == expected[a], show(v) << ": infimum of axis " << a << " is " << gi[a] << " instead of " << expected[a]);
  }
  template <std::size_t I>
  std::size_t greatestNotAbove(const View& v, const At<I>& x) {
    auto& ax = v.grid->template getAxis<I>();
    std::size_t r = 0;
    for (std::size_t k = 0; k < ax.size(); ++k)
      if (ax[k] <= x)
        r = k;
    return r;
  }

  void step() {
    View& v = m_views[c.n(0, m_views.size() - 1)];
    switch (c.weighted({4, 4, 3, 3, 2, 4, 2, 2, 1})) {
    case 0: {  // write through an index
      Index idx     = randomIndex(v);
      bool  checked = c.b();
      double x      = ++m_next;
      c.describe([&](std::ostream& o) { o << show(v) << " write " << x << " at cell " << cellOf(v, idx); });
      cellAt(*v.grid, idx, checked, Seq()) = x;
      m_cells[cellOf(v, idx)] = x;
      break;
    }
    case 1: {  // write all through the iterator
      auto cells = selected(v.fixed);
      c.describe([&](std::ostream& o) { o << show(v) << " write through the iterator"; });
      std::size_t k = 0;
      for (auto& cell : *v.grid) {
        CHECK(k < cells.size(), show(v) << ": too many cells");
        cell = ++m_next;
        m_cells[cells[k++]] = m_next;
      }
      CHECK(k == cells.size(), show(v) << ": too few cells");
      break;
    }
    case 2:
    case 3: {  // slice
      if (m_views.size() > 6)
        return;
      std::size_t axis  = c.n(0, N - 1);
      std::size_t index = c.n(0, m_sizes[axis] - 1);
      bool        by_value = c.b(), by_const = c.b(1, 3);
      bool        already = v.fixed.count(axis);
      c.describe([&](std::ostream& o) { o << show(v) << " slice axis " << axis << " at " << index << (by_value ? " by value" : ""); });
      onAxis(axis, [&](auto ic) {
        constexpr int I = decltype(ic)::value;
        if (already) {
          CHECK_THROWS(v.grid->template fixAxisByIndex<I>(index), Elements::Exception, "axis fixed twice");
          CHECK_THROWS(v.grid->template fixAxisByValue<I>(std::get<I>(m_knots)[index]), Elements::Exception, "axis fixed twice");
          return;
        }
        View n;
        n.fixed = v.fixed;
        if (by_const) {
          const Grid& cg = *v.grid;
          const Grid& s  = by_value ? cg.template fixAxisByValue<I>(std::get<I>(m_knots)[index]) : cg.template fixAxisByIndex<I>(index);
          auto        fx = v.fixed;
          fx[axis]       = by_value ? this->template firstOf<I>(index) : index;
          auto cells     = selected(fx);
          CHECK(s.size() == cells.size(), show(v) << ": size of a const slice");
          std::size_t k = 0;
          for (auto& x : s)
            CHECK(k < cells.size() && x == m_cells[cells[k++]], show(v) << ": cell of a const slice");
          CHECK(k == cells.size(), show(v) << ": number of cells of a const slice");
        }
        if (by_value) {
          n.grid.reset(new Grid(v.grid->template fixAxisByValue<I>(std::get<I>(m_knots)[index])));
          n.fixed[axis] = this->template firstOf<I>(index);
        } else {
          n.grid.reset(new Grid(v.grid->template fixAxisByIndex<I>(index)));
          n.fixed[axis] = index;
        }
        c.nontrivial();
        c.label("slice of a slice", n.fixed.size() > 1);
        m_views.push_back(std::move(n));
      });
      break;
    }
    case 4: {  // out of range
      std::size_t axis = c.n(0, N - 1);
      Index       idx  = randomIndex(v);
      idx[axis]        = (v.fixed.count(axis) ? 1 : m_sizes[axis]) + c.n(0, 3);
      c.describe([&](std::ostream& o) { o << show(v) << " at() out of range on axis " << axis; });
      const Grid& cg = *v.grid;
      CHECK_THROWS(cellAt(cg, idx, true, Seq()), Elements::Exception, show(v) << ": access out of range");
      CHECK_THROWS(cellAt(*v.grid, idx, true, Seq()), Elements::Exception, show(v) << ": access out of range");
      onAxis(axis, [&](auto ic) {
        constexpr int I = decltype(ic)::value;
        CHECK_THROWS(v.grid->template fixAxisByIndex<I>(m_sizes[axis] + c.n(0, 3)), Elements::Exception, "slice out of range");
        CHECK_THROWS(v.grid->template fixAxisByValue<I>(value<At<I>>(200)), Elements::Exception, "slice of a value that is not there");
        auto it = v.grid->begin();
        CHECK_THROWS(it.template fixAxisByIndex<I>(m_sizes[axis] + c.n(0, 3)), Elements::Exception, "iterator out of range");
        CHECK_THROWS(it.template fixAxisByValue<I>(value<At<I>>(200)), Elements::Exception, "iterator of a value that is not there");
        auto cells = selected(v.fixed);
        CHECK(*it == m_cells[cells[0]], "an iterator after a rejected fixing");
      });
      break;
    }
    case 5: {  // an iterator restricted on its way
      auto        cells = selected(v.fixed);
      auto        fixed = v.fixed;
      auto        it    = v.grid->begin();
      std::size_t pos   = 0;  // a cell of the whole grid
      pos = cells[0];
      bool mid = false;
      std::size_t n_fix = c.n(1, N + 1);
      std::string what;
      auto end = v.grid->end();
      for (std::size_t f = 0; f < n_fix; ++f) {
        std::size_t walk = c.b() ? 0 : c.n(0, 4);
        for (std::size_t w = 0; w < walk && it != end; ++w) {
          ++it;
          auto sel = selected(fixed);
          auto nx  = std::upper_bound(sel.begin(), sel.end(), pos);
          pos      = nx == sel.end() ? m_cells.size() : *nx;
          mid      = true;
          what += "++ ";
        }
        if (it == end)
          break;
        std::size_t axis  = c.n(0, N - 1);
        std::size_t index = c.n(0, m_sizes[axis] - 1);
        bool        by_value = c.b();
        onAxis(axis, [&](auto ic) {
          constexpr int I = decltype(ic)::value;
          std::size_t   k = by_value ? this->template firstOf<I>(index) : index;
          what += "axis " + std::to_string(axis) + "=" + std::to_string(k) + " ";
          auto old = fixed.find(axis);
          if (old != fixed.end() && old->second != k) {
            CHECK_THROWS(it.template fixAxisByIndex<I>(k), Elements::Exception, show(v) << ": iterator fixed twice");
            return;
          }
          if (by_value)
            it.template fixAxisByValue<I>(std::get<I>(m_knots)[index]);
          else
            it.template fixAxisByIndex<I>(k);
          fixed[axis] = k;
          auto sel    = selected(fixed);
          auto nx     = std::lower_bound(sel.begin(), sel.end(), pos);
          pos         = nx == sel.end() ? m_cells.size() : *nx;
        });
        CHECK((it == end) == (pos == m_cells.size()), show(v) << ", " << what << ": iterator " << (it == end ? "" : "not ") << "at the end");
      }
      c.describe([&](std::ostream& o) { o << show(v) << " iterator " << what; });
      c.nontrivial(mid && fixed.size() > v.fixed.size());
      c.label("restricted on its way", mid);
      auto sel  = selected(fixed);
      sel.erase(sel.begin(), std::lower_bound(sel.begin(), sel.end(), pos));
      View tmp;
      tmp.fixed = fixed;
      auto assigned = v.grid->begin();
      assigned = it;
      checkIter(tmp, it, end, sel, what.c_str());
      checkIter(tmp, assigned, end, sel, "assigned iterator");
      break;
    }
    case 6: infimum(v, Seq()); break;
    case 7: {  // all axes from the iterator of another grid
      View&       o     = m_views[c.n(0, m_views.size() - 1)];
      auto        cells = selected(o.fixed);
      std::size_t skip  = c.n(0, cells.size() - 1);
      auto        from  = o.grid->cbegin();
      for (std::size_t k = 0; k < skip; ++k)
        ++from;
      auto to = m_views[0].grid->begin();
      to.fixAllAxes(from);
      Index idx = unravel(cells[skip]);
      for (std::size_t a = 0; a < N; ++a)
        onAxis(a, [&](auto ic) { idx[a] = this->template firstOf<decltype(ic)::value>(idx[a]); });
      CHECK(to != m_views[0].grid->end() && *to == m_cells[flat(idx)], show(o) << ": iterator with all axes fixed to those of another one");
      CHECK(&*to == &cellAt(*m_views[0].grid, idx, true, Seq()), show(o) << ": the cell of an iterator with all axes fixed");
      ++to;
      CHECK(to == m_views[0].grid->end(), show(o) << ": a single cell has all the axes fixed");
      break;
    }
    default: {  // move
      c.describe([&](std::ostream& o) { o << show(v) << " moved"; });
      std::unique_ptr<Grid> g(new Grid(std::move(*v.grid)));
      v.grid = std::move(g);
      if (c.b()) {
        Grid other(makeOther(Seq()));
        other  = std::move(*v.grid);
        *v.grid = std::move(other);
      }
    }
    }
  }
  template <std::size_t... I>
  Grid makeOther(std::index_sequence<I...>) {
    return Grid(GridAxis<Ax>("other", std::vector<Ax>{value<Ax>(I)})...);
  }

  void run() {
    init(Seq());
    checkAll();
    std::size_t steps = c.len(3, 16);
    for (std::size_t k = 0; k < steps; ++k) {
      step();
      checkAll();
    }
    c.label("views", m_views.size() > 1);
  }
};

template <typename M, typename... Ax>
void run(Case& c) {
  World<M, Ax...> w(c);
  w.run();
}

PBT_TEST(one_axis, pbt::cases(4000, 100000)) { c.b() ? run<std::vector<double>, double>(c) : run<Cells, int>(c); }
PBT_TEST(two_axes, pbt::cases(6000, 200000)) {
  c.b() ? run<std::vector<double>, double, int>(c) : run<Cells, std::string, double>(c);
}
PBT_TEST(three_axes, pbt::cases(6000, 200000)) { run<std::vector<double>, int, std::string, double>(c); }
PBT_TEST(four_axes, pbt::cases(3000, 80000)) { run<std::vector<double>, double, int, std::string, int>(c); }

// Axes and numbers of cells beyond 16 bits
PBT_TEST(large_grids, pbt::cases(40, 800)) {
  typedef GridContainer<std::vector<double>, int, double, int> Grid;
  std::size_t n[3];
  switch (c.n(0, 2)) {
  case 0: n[0] = c.n(65537, 90000), n[1] = c.n(1, 2), n[2] = 1; break;
  case 1: n[0] = c.n(1, 3), n[1] = c.n(1, 3), n[2] = c.n(30000, 70000); break;
  default: n[0] = c.n(30, 60), n[1] = c.n(30, 60), n[2] = c.n(30, 60);
  }
  std::vector<int>    k0(n[0]), k2(n[2]);
  std::vector<double> k1(n[1]);
  for (std::size_t k = 0; k < n[0]; ++k)
    k0[k] = static_cast<int>(3 * k);
  for (std::size_t k = 0; k < n[1]; ++k)
    k1[k] = static_cast<double>(k) / 4;
  for (std::size_t k = 0; k < n[2]; ++k)
    k2[k] = 7 - static_cast<int>(k);
  std::size_t total = n[0] * n[1] * n[2];
  c.describe([&](std::ostream& o) { o << n[0] << " x " << n[1] << " x " << n[2]; });
  c.nontrivial(total > 65536);
  Grid g(GridAxis<int>("a", k0), GridAxis<double>("b", k1), GridAxis<int>("c", k2));
  CHECK(g.size() == total, "size " << g.size());
  double v = 0;
  for (auto& x : g)
    x = v++;
  CHECK(v == static_cast<double>(total), "iteration ends after " << v << " cells");
  auto at = [&](std::size_t i, std::size_t j, std::size_t k) { return static_cast<double>(i + n[0] * (j + n[1] * k)); };
  for (int q = 0; q < 300; ++q) {
    std::size_t i = c.n(0, n[0] - 1), j = c.n(0, n[1] - 1), k = c.n(0, n[2] - 1);
    if (q == 0)
      i = n[0] - 1, j = n[1] - 1, k = n[2] - 1;
    CHECK(g(i, j, k) == at(i, j, k) && g.at(i, j, k) == at(i, j, k), "cell " << i << ", " << j << ", " << k << " is " << g(i, j, k));
    auto inf = g.infimum(k0[i], k1[j], 7);
    CHECK(std::get<0>(inf) == i && std::get<1>(inf) == j, "infimum of the knots " << i << ", " << j);
  }
  std::size_t i = c.n(0, n[0] - 1), j = c.n(0, n[1] - 1), k = c.n(0, n[2] - 1);
  auto        s0 = g.fixAxisByIndex<0>(i);
  auto        s1 = g.fixAxisByValue<1>(k1[j]);
  auto        s2 = g.fixAxisByIndex<2>(k);
  CHECK(s0.size() == n[1] * n[2] && s1.size() == n[0] * n[2] && s2.size() == n[0] * n[1], "size of a slice");
  std::size_t p = 0;
  for (auto it = s0.begin(); it != s0.end(); ++it, ++p)
    CHECK(*it == at(i, p % n[1], p / n[1]) && it.axisValue<2>() == k2[p / n[1]], "slice of the first axis, position " << p);
  CHECK(p == s0.size(), "iteration of a slice");
  p = 0;
  for (auto it = s1.begin(); it != s1.end(); ++it, ++p)
    CHECK(*it == at(p % n[0], j, p / n[0]) && it.axisIndex<0>() == p % n[0], "slice of the second axis, position " << p);
  CHECK(p == s1.size(), "iteration of a slice");
  p = 0;
  for (auto it = s2.begin(); it != s2.end(); ++it, ++p)
    CHECK(*it == at(p % n[0], p / n[0], k), "slice of the third axis, position " << p);
  CHECK(p == s2.size(), "iteration of a slice");
}

// Numbers of cells beyond 32 bits
PBT_TEST(huge_grids, pbt::cases(80, 1500)) {
  typedef GridContainer<Virtual, int, int, int> Grid;
  std::size_t n[3];
  switch (c.n(0, 3)) {
  case 0: n[0] = c.n(40000, 80000), n[1] = c.n(40000, 80000), n[2] = c.n(1, 3); break;
  case 1: n[0] = c.n(40000, 80000), n[1] = c.n(1, 3), n[2] = c.n(40000, 80000); break;
  case 2: n[0] = c.n(1, 3), n[1] = c.n(40000, 80000), n[2] = c.n(40000, 80000); break;
  default: n[0] = c.n(1200, 3000), n[1] = c.n(1200, 3000), n[2] = c.n(1200, 3000);
  }
  std::vector<int> knots[3];
  for (int a = 0; a < 3; ++a)
    for (std::size_t k = 0; k < n[a]; ++k)
      knots[a].push_back((a == 1 ? -2 : 3) * static_cast<int>(k) + a);
  std::size_t total = n[0] * n[1] * n[2];
  c.describe([&](std::ostream& o) { o << n[0] << " x " << n[1] << " x " << n[2] << ", " << total << " cells"; });
  c.nontrivial(total > 0xFFFFFFFFu);
  Grid g(GridAxis<int>("a", knots[0]), GridAxis<int>("b", knots[1]), GridAxis<int>("c", knots[2]));
  CHECK(g.size() == total, "size " << g.size());
  auto at = [&](std::size_t i, std::size_t j, std::size_t k) { return static_cast<double>(i + n[0] * (j + n[1] * k)); };
  auto coord = [&](int a) { return static_cast<std::size_t>(c.b(1, 4) ? n[a] - 1 - c.n(0, std::min<std::size_t>(3, n[a] - 1)) : c.n(0, n[a] - 1)); };
  for (int q = 0; q < 60; ++q) {
    std::size_t i = coord(0), j = coord(1), k = coord(2);
    CHECK(g(i, j, k) == at(i, j, k), "cell " << i << ", " << j << ", " << k << " is " << g(i, j, k) << " instead of " << at(i, j, k));
    CHECK(g.at(i, j, k) == at(i, j, k), "cell " << i << ", " << j << ", " << k << " is " << g.at(i, j, k));
    const Grid& cg = g;
    CHECK(cg(i, j, k) == at(i, j, k) && cg.at(i, j, k) == at(i, j, k), "constant cell " << i << ", " << j << ", " << k);
    CHECK_THROWS(g.at(i + (q % 3 == 0) * n[0], j + (q % 3 == 1) * n[1], k + (q % 3 == 2) * n[2]), Elements::Exception, "an index out of bound");
    // an iterator with all its axes fixed, in any order
    auto        it = g.begin();
    std::size_t order[3] = {0, 1, 2};
    std::swap(order[0], order[c.n(0, 2)]);
    std::swap(order[1], order[c.n(1, 2)]);
    for (auto a : order) {
      if (a == 0)
        c.b() ? it.fixAxisByIndex<0>(i) : it.fixAxisByValue<0>(knots[0][i]);
      else if (a == 1)
        c.b() ? it.fixAxisByIndex<1>(j) : it.fixAxisByValue<1>(knots[1][j]);
      else
        c.b() ? it.fixAxisByIndex<2>(k) : it.fixAxisByValue<2>(knots[2][k]);
    }
    CHECK(it != g.end() && *it == at(i, j, k), "the iterator with the axes fixed to " << i << ", " << j << ", " << k << " is at " << *it);
    CHECK(it.axisIndex<0>() == i && it.axisIndex<1>() == j && it.axisIndex<2>() == k, "indices of an iterator");
    CHECK(it.axisValue<0>() == knots[0][i] && it.axisValue<1>() == knots[1][j] && it.axisValue<2>() == knots[2][k], "values of an iterator");
    ++it;
    CHECK(it == g.end(), "there is another cell with all the axes fixed");
    // slices
    auto s1 = g.fixAxisByIndex<1>(j);
    CHECK(s1.size() == n[0] * n[2], "size of a slice");
    CHECK(s1(i, 0, k) == at(i, j, k) && s1.at(i, 0, k) == at(i, j, k), "cell of a slice of the second axis is " << s1(i, 0, k));
    auto s12 = s1.fixAxisByValue<2>(knots[2][k]);
    CHECK(s12.size() == n[0] && s12(i, 0, 0) == at(i, j, k), "cell of a slice of two axes is " << s12(i, 0, 0));
    auto s02 = g.fixAxisByIndex<0>(i).fixAxisByIndex<2>(k);
    CHECK(s02(0, j, 0) == at(i, j, k), "cell of a slice of the first and last axes is " << s02(0, j, 0));
    auto s012 = s12.fixAxisByIndex<0>(i);
    CHECK(s012.size() == 1 && *s012.begin() == at(i, j, k), "cell of a slice of all the axes is " << *s012.begin());
    s012(0, 0, 0) = -1;
    CHECK(g(i, j, k) == -1, "a slice does not share the cells");
    g(i, j, k) = at(i, j, k);
    if (q < 2) {
      std::size_t p = 0;
      for (auto jt = s12.begin(); jt != s12.end() && p < 2000; ++jt, ++p)
        CHECK(*jt == at(p, j, k) && jt.axisIndex<0>() == p, "position " << p << " of a slice is " << *jt);
      CHECK(p == std::min<std::size_t>(2000, n[0]), "iteration of a slice ends after " << p << " cells");
      p = 0;
      for (auto jt = s02.begin(); jt != s02.end() && p < 2000; ++jt, ++p)
        CHECK(*jt == at(i, p, k) && jt.axisIndex<1>() == p && jt.axisValue<1>() == knots[1][p], "position " << p << " of a slice is " << *jt);
      CHECK(p == std::min<std::size_t>(2000, n[1]), "iteration of a slice ends after " << p << " cells");
    }
  }
}

PBT_TEST(axis_infimum, pbt::cases(20000, 400000)) {
  auto k = c.b() ? knots<double>(c, true, true, 10) : knots<double>(c, true, false, 40);
  GridAxis<double> ax("x", k);
  double x = c.real(-5., 35.);
  if (c.b())
    x = c.pick(k);
  auto        it = ax.infimum(x);
  std::size_t expected = 0;
  for (std::size_t i = 0; i < k.size(); ++i)
    if (k[i] <= x)
      expected = i;
  c.nontrivial(k.size() > 2 && expected > 0);
  c.describe([&](std::ostream& o) { o << pbt::str(k) << " infimum of " << x; });
  CHECK(it - ax.begin() == static_cast<std::ptrdiff_t>(expected), "infimum of " << x << " is knot " << (it - ax.begin()) << " instead of " << expected);
  // comparison
  auto k2 = k;
  if (c.b())
    k2[c.n(0, k2.size() - 1)] += 1.;
  else if (c.b())
    k2.push_back(100.);
  GridAxis<double> ay("y", k2);
  CHECK((ax == ay) == (k == k2) && (ax != ay) == (k != k2), "comparison of axes");
}

}  // namespace
