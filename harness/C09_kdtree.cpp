// C09: the range query of the k-d tree selects exactly what a scan over all the points selects
#include "KdTree/KdTree.h"
#include "common/pbt.h"
#include <array>

using pbt::Case;

template <std::size_t N>
struct Point {
  std::array<double, N> x;
  int                   id;
};


namespace KdTree {
template <std::size_t N>
struct KdTreeTraits<Point<N>> {
  static double getCoord(const Point<N>& p, std::size_t i) { return p.x.at(i); }
};
}  // namespace KdTree


namespace {

enum Style { LATTICE, UNIFORM, CLUSTERS, LINE, MIXED_SCALE };

template <std::size_t N>
std::vector<Point<N>> genPoints(Case& c, Style style, std::size_t n) {
  std::vector<Point<N>> pts(n);
  int                   side  = static_cast<int>(c.pick({3, 1, 10, 40}));
  std::array<std::array<double, N>, 4> centre{};
  for (auto& a : centre)
    for (auto& v : a)
      v = style == CLUSTERS ? c.real(-50, 50) : 0;
  for (std::size_t k = 0; k < n; ++k) {
    pts[k].id = static_cast<int>(k);
    std::size_t cl = style == CLUSTERS ? c.n(0, 3) : 0;
    double      t  = style == LINE ? c.real(-20, 20) : 0;
    for (std::size_t d = 0; d < N; ++d) {
      switch (style) {
      case LATTICE: pts[k].x[d] = static_cast<double>(c.i(-side, side)); break;
      case UNIFORM: pts[k].x[d] = c.real(-100, 100); break;
      case CLUSTERS: pts[k].x[d] = centre[cl][d] + (c.unit() - 0.5) * 1e-3; break;
      case LINE: pts[k].x[d] = d == 0 ? t : (d == 1 ? 2 * t : 3.); break;
      case MIXED_SCALE: pts[k].x[d] = (c.unit() - 0.5) * (d % 2 ? 1e6 : 1e-3); break;
      }
    }
  }
  return pts;
}

template <std::size_t N, std::size_t S>
void run(Case& c) {
  auto        style = static_cast<Style>(c.n(0, 4));
  std::size_t n     = c.size(0, S >= 100 ? 700 : 150, 6000, 400);
  auto        pts   = genPoints<N>(c, style, n);
  if (n > 1 && c.b(1, 4))
    for (std::size_t k = c.n(1, n - 1); k < n; ++k)
      pts[k].x = pts[c.n(0, k - 1)].x;  // duplicates
  // powers of two keep the lattice exact, whatever the unit of the coordinates
  double scale = std::ldexp(1.0, static_cast<int>(c.b(1, 3) ? c.i(-200, 200) : 0));
  for (auto& p : pts)
    for (auto& v : p.x)
      v *= scale;
  using Tree = ::KdTree::KdTree<Point<N>, N, S>;
  Tree     tree(pts);
  unsigned queries = static_cast<unsigned>(c.n(1, 6));
  for (unsigned q = 0; q < queries; ++q) {
    typename Tree::Coord at;
    bool                 on_point = n > 0 && c.b(1, 3);
    std::size_t          base     = on_point ? c.n(0, n - 1) : 0;
    for (std::size_t d = 0; d < N; ++d)
      at.coord[d] = on_point ? pts[base].x[d] : scale * (style == LATTICE ? static_cast<double>(c.i(-45, 45)) : c.real(-110, 110));
    double radius;
    bool   exact = style == LATTICE;
    if (exact) {
      radius = scale * static_cast<double>(c.pick({1, 0, 2, 3, 5, 13, 25, 50, 200}));
    } else {
      switch (c.n(0, 4)) {
      case 0: radius = scale * c.real(0, 30); break;
      case 1: radius = 0; break;
      case 2: radius = scale * 1e9; break;
      case 3: radius = scale * c.unit() * 1e-3; break;
      default: {
        // about the distance of some point
        radius = scale;
        if (n > 0) {
          double s = 0;
          auto&  p = pts[c.n(0, n - 1)];
          for (std::size_t d = 0; d < N; ++d)
            s += (p.x[d] - at.coord[d]) * (p.x[d] - at.coord[d]);
          radius = std::sqrt(s) * c.pick({1.0 + 1e-6, 1.0 - 1e-6, 1.5, 0.5, 1.0 + 1e-10, 1.0 - 1e-10, 1.0 + 4e-14, 1.0 - 4e-14});
        }
      }
      }
    }
    std::vector<int> in(n, 0);  // 1: inside, -1: too close to the boundary to tell
    std::size_t      inside = 0;
    for (std::size_t k = 0; k < n; ++k) {
      long double s = 0;
      for (std::size_t d = 0; d < N; ++d) {
        long double delta = static_cast<long double>(pts[k].x[d]) - at.coord[d];
        s += delta * delta;
      }
      long double r2 = static_cast<long double>(radius) * radius;
      in[k]          = s < r2 ? 1 : 0;
      if (!exact && std::abs(static_cast<double>(s - r2)) <= 1e-14 * static_cast<double>(std::max(s, r2)))
        in[k] = -1;
      inside += in[k] == 1;
    }
    auto             res = tree.findPointsWithinRadius(at, radius);
    std::vector<int> got(n, 0);
    for (auto& p : res) {
      CHECK(p.id >= 0 && p.id < static_cast<int>(n), "unknown point returned");
      CHECK(p.x == pts[p.id].x, "point " << p.id << " was altered");
      got[p.id]++;
    }
    c.describe([&](std::ostream& o) {
      o << "N=" << N << " S=" << S << " points=" << n << " style=" << style << " query=(";
      for (std::size_t d = 0; d < N; ++d)
        o << (d ? "," : "") << at.coord[d];
      o << ") radius=" << radius << " inside=" << inside;
      if (n <= 12)
        for (auto& p : pts) {
          o << "\n  point";
          for (auto v : p.x)
            o << " " << v;
        }
    });
    for (std::size_t k = 0; k < n; ++k) {
      if (in[k] == -1)
        CHECK(got[k] <= 1, "point " << k << " returned " << got[k] << " times");
      else
        CHECK(got[k] == in[k], "point " << k << " returned " << got[k] << " times, " << (in[k] ? "it is inside the radius" : "it is outside the radius"));
    }
    c.nontrivial(n > S && inside > 0 && inside < n);
    c.label("split tree", n > S);
    c.label("some inside some outside", inside > 0 && inside < n);
  }
}
}  // namespace

PBT_TEST(dim1_leaf4, pbt::cases(30000, 400000)) { run<1, 4>(c); }
PBT_TEST(dim2_leaf4, pbt::cases(40000, 600000)) { run<2, 4>(c); }
PBT_TEST(dim2_leaf100, pbt::cases(15000, 200000)) { run<2, 100>(c); }
PBT_TEST(dim3_leaf5, pbt::cases(40000, 600000)) { run<3, 5>(c); }
PBT_TEST(dim5_leaf8, pbt::cases(30000, 400000)) { run<5, 8>(c); }
