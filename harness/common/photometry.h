// What the photometry of one filter has to become
#ifndef COMMON_PHOTOMETRY_H
#define COMMON_PHOTOMETRY_H
#include <algorithm>
#include <cmath>
#include <string>

namespace photometry {
using LD = long double;

struct Flags {
  bool   missing, upper;
  double missing_flag, upper_flag;
};

struct Band {
  std::string name;
  int         flux_type, err_type;  // 0 double, 1 float, 2 int, 3 long
  double      flux, err;
  float       n;
  bool        mag;
};

// What it has to become
struct Out {
  bool   refused = false;
  double flux = 0, err = 0;
  bool   missing = false, upper = false;
  double tol = 0;
};

inline Out parse(const Flags& k, const Band& b) {
  Out    o;
  double f = b.flux, e = b.err;
  if (b.mag) {
    if (std::isnan(f) || f == k.missing_flag) {
      f = k.missing_flag;
      e = 0;
    } else {
      LD flux = 3.631e9L * std::pow(10.L, -0.4L * f);
      e       = e == k.upper_flag ? e : static_cast<double>(0.4L * std::log(10.L) * flux * e);
      f       = static_cast<double>(flux);
      o.tol   = 1e-12;
    }
  }
  if (std::isinf(f)) {
    o.refused = true;
    return o;
  }
  if (k.missing && (std::isnan(f) || f == k.missing_flag)) {
    o.flux    = f;
    o.missing = true;
    return o;
  }
  if (std::isnan(f) || e == 0 || (!k.upper && e < 0)) {
    o.refused = true;
    return o;
  }
  if (e < 0) {
    if (e == k.upper_flag) {
      e     = f / b.n;
      o.tol = std::max(o.tol, 1e-12);
    }
    o.upper   = true;
    o.refused = f <= 0;
    e         = std::abs(e);
  }
  o.flux = f;
  o.err  = e;
  return o;
}

}  // namespace photometry
#endif
