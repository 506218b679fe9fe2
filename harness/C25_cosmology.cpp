// C25: cosmological distances
#include "PhysicsUtils/CosmologicalDistances.h"
#include "PhysicsUtils/CosmologicalParameters.h"
#include "common/pbt.h"

using namespace Euclid::PhysicsUtils;
using pbt::Case;
using LD = long double;

namespace {

struct Cosmo {
  LD m, l, k, h;
  LD dh() const { return 299792.458L / h * 1e6L; }
  LD e2(LD z) const { return m * (1 + z) * (1 + z) * (1 + z) + k * (1 + z) * (1 + z) + l; }
  // composite Gauss-Legendre of five points, in log(1+z)
  LD chi(LD z) const {
    static const LD x[] = {0.L, 0.538469310105683091036314420700L, 0.906179845938663992797626878299L};
    static const LD w[] = {0.568888888888888888888888888889L, 0.478628670499366468041291514836L, 0.236926885056189087514264040720L};
    LD              end = std::log1p(z), sum = 0;
    const int       n   = 40;
    for (int i = 0; i < n; ++i) {
      LD mid = end * (i + 0.5L) / n, half = end / n / 2;
      for (int j = 0; j < 3; ++j)
        for (int s = (j ? -1 : 1); s <= 1; s += 2) {
          LD u = mid + s * half * x[j];
          sum += w[j] * half * std::exp(u) / std::sqrt(e2(std::expm1(u)));
        }
    }
    return sum;
  }
  // whether two successive coarse estimates of the adaptive quadrature agree by chance, far from the integral
  bool chance(LD z, LD integral, LD precision) const {
    LD last = 0;
    for (int o = 3; o <= 10; ++o) {
      int  n = 1 << o;
      auto f = [&](int i) { return 1 / std::sqrt(e2(z * i / n)) + (2 * i == n ? 0 : 1 / std::sqrt(e2(z * (n - i) / n))); };
      LD   v = 0.375L * f(0) + 7 * f(1) / 6 + 23 * f(2) / 24;
      for (int i = 3; i <= n / 2; ++i)
        v += f(i);
      v *= z / n;
      if (o > 3 && std::abs(v - last) < 2 * precision * std::abs(v) && std::abs(v - integral) > 5 * precision * integral)
        return true;
      last = v;
    }
    return false;
  }
  LD dm(LD c) const {  // in Hubble distances
    if (std::abs(k) < 1e-12L)
      return c;
    LD s = std::sqrt(std::abs(k));
    return k > 0 ? std::sinh(s * c) / s : std::sin(s * c) / s;
  }
};

struct Setting {
  Cosmo       t;
  double      m = 0, l = 0, h = 0, z = 0, precision = 1e-7;
  LD          chi = 0, dm = 0;
  const char* unusable = nullptr;
};

void universe(Case& c, Setting& s) {
  double& m = s.m;
  double& l = s.l;
  switch (c.weighted({3, 2, 2, 1})) {
  case 0: m = c.real(0.05, 1); l = 1 - m; break;        // flat, up to rounding
  case 1: m = c.real(0.05, 1); l = c.real(0, 1 - m); break;  // open
  case 2: m = c.real(0.2, 1.5); l = c.real(0, 1.2); break;  // anything
  default: m = c.pick({0.25, 0.5, 1., 0.}); l = c.b() ? 1 - m : c.pick({0., 0.25, 0.5});
  }
  s.h = c.b(1, 3) ? c.pick({67.74, 70., 100., 50.}) : c.real(20, 200);
}

void redshift(Case& c, Setting& s) {
  s.z         = c.b(1, 4) ? c.pick({0.5, 1., 2., 1e-6, 7., 1e-3}) : c.b() ? c.real(0, 10) : c.real(0, 1);
  s.precision = c.pick({1e-7, 1e-4, 1e-5, 1e-9});
}

void expect(Setting& s) {
  s.t      = {s.m, s.l, 1 - static_cast<LD>(s.m) - s.l, s.h};
  LD low   = 1;
  for (int i = 0; i <= 200; ++i)
    low = std::min(low, s.t.e2(s.z * i / 200));
  if (low < 0.05) {
    s.unusable = "no such universe at this redshift";
    return;
  }
  s.chi = s.t.chi(s.z);
  s.dm  = s.t.dm(s.chi);
  if (s.t.k < 0 && std::sqrt(-s.t.k) * s.chi > 3)
    s.unusable = "beyond the antipode";
  else if (s.t.chance(s.z, s.chi, 1e-7L) || s.t.chance(s.z, s.chi, s.precision))
    s.unusable = "coarse estimates agree by chance";
}

void check(const Setting& s, const CosmologicalDistances& d, const CosmologicalParameters& p, unsigned which = 0xff) {
  const double z = s.z;
  const LD     dh = s.t.dh();
  CHECK(p.getOmegaM() == s.m && p.getOmegaLambda() == s.l && p.getHubbleConstant() == s.h, "the parameters are others");
  CHECK(std::abs(p.getOmegaM() + p.getOmegaLambda() + p.getOmegaK() - 1) < 1e-14, "the densities do not sum up to 1");
  auto is = [&](const char* what, double got, LD want, LD tol) {
    CHECK(std::abs(got - want) <= tol * std::abs(want) + 1e-300L, what << " is " << got << " instead of " << static_cast<double>(want));
  };
  if (which & 1)
    is("the Hubble distance", d.hubbleDistance(p), dh, 1e-12L);
  if (which & 2)
    is("the Hubble parameter", d.hubbleParameter(z, p), std::sqrt(s.t.e2(z)), 1e-12L);
  if (which & 4)
    is("the comoving distance", d.comovingDistance(z, p), dh * s.chi, 1e-6L);
  if (which & 8)
    is("the comoving distance of this precision", d.comovingDistance(z, p, s.precision), dh * s.chi, 10 * s.precision);
  if (which & 16)
    is("the transverse distance", d.transverseComovingDistance(z, p), dh * s.dm, 1e-5L);
  if (z > 0 && (which & 32)) {
    is("the luminosity distance", d.luminousDistance(z, p), (1 + static_cast<LD>(z)) * dh * s.dm, 1e-5L);
    LD mod = 5 * std::log10((1 + static_cast<LD>(z)) * dh * s.dm / 10);
    CHECK(std::abs(d.distanceModulus(z, p) - mod) < 2e-5L, "the distance modulus is " << d.distanceModulus(z, p) << " instead of " << static_cast<double>(mod));
  }
  if (which & 64)
    is("the volume element", d.dimensionlessComovingVolumeElement(z, p), s.dm * s.dm / std::sqrt(s.t.e2(z)), 2e-5L);
  if (which & 128) {
    CHECK(d.comovingDistance(0, p) == 0 && d.transverseComovingDistance(0, p) == 0 && d.dimensionlessComovingVolumeElement(0, p) == 0, "a distance at redshift 0");
    CHECK(d.luminousDistance(0, p) == 10 && d.distanceModulus(0, p) == 0, "the distance modulus at redshift 0 is " << d.distanceModulus(0, p));
  }
}

void describe(std::ostream& o, const Setting& s) {
  o << "m=" << s.m << " l=" << s.l << " H=" << s.h << " z=" << s.z << " precision " << s.precision;
}

}  // namespace

PBT_TEST(distances, pbt::cases(60000, 3000000)) {
  Setting s;
  universe(c, s);
  redshift(c, s);
  expect(s);
  c.describe([&](std::ostream& o) { describe(o, s); });
  if (s.unusable) {
    c.label(s.unusable);
    return;
  }
  c.nontrivial(s.z > 0);
  c.label(std::abs(s.t.k) < 1e-12L ? "flat" : s.t.k > 0 ? "open" : "closed");
  check(s, CosmologicalDistances{}, CosmologicalParameters(s.m, s.l, s.h));
}

// What was calculated before, with the same objects, makes no difference
PBT_TEST(histories, pbt::cases(6000, 300000)) {
  std::vector<Setting> steps(c.n(2, 12));
  for (std::size_t k = 0; k < steps.size(); ++k) {
    Setting& s = steps[k];
    bool     u = k && c.b(1, 2), r = k && c.b(1, 2);
    if (u || r)
      s = steps[c.n(0, k - 1)];
    if (!u) {
      // sometimes only one of the parameters changes
      Setting n;
      universe(c, n);
      switch (c.n(0, r ? 3 : 0)) {
      case 1: s.m = n.m; break;
      case 2: s.l = n.l; break;
      case 3: s.h = n.h; break;
      default: s.m = n.m; s.l = n.l; s.h = n.h;
      }
    }
    if (!r)
      redshift(c, s);
    else if (c.b(1, 4))
      s.precision = c.pick({1e-7, 1e-4, 1e-5, 1e-9});
    s.unusable = nullptr;
    expect(s);
  }
  c.describe([&](std::ostream& o) {
    for (auto& s : steps) {
      describe(o, s);
      o << "; ";
    }
  });
  CosmologicalDistances               d;
  CosmologicalParameters              p;
  std::vector<CosmologicalParameters> ps;
  for (auto& s : steps)
    ps.emplace_back(s.m, s.l, s.h);
  std::size_t used = 0;
  for (std::size_t k = 0; k < steps.size(); ++k) {
    if (steps[k].unusable)
      continue;
    unsigned which = static_cast<unsigned>(c.n(1, 255));
    if (c.b(1, 4)) {
      check(steps[k], d, ps[k], which);
    } else {
      p = ps[k];
      check(steps[k], d, p, which);
    }
    ++used;
  }
  c.nontrivial(used > 1);
}
