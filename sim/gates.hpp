// Reference gate matrices, written from their textbook definitions.
#pragma once
#include "core/sim.hpp"
#include "dense.hpp"

namespace gt {
using dn::cplx;
using dn::Mat;
constexpr double PI = 3.14159265358979323846;
inline Mat m2(cplx a, cplx b, cplx c, cplx d) {
  Mat m(2);
  m.a = {a, b, c, d};
  return m;
}
inline cplx ex(double t) { return std::polar(1.0, t); }
// discrete Clifford+T-like gate `k`
constexpr unsigned NDISC = 12;
inline Mat disc(unsigned k) {
  const double s = std::sqrt(0.5);
  const cplx i(0, 1);
  switch (k % NDISC) {
  case 0:
    return m2(s, s, s, -s);
  case 1:
    return m2(0, 1, 1, 0);
  case 2:
    return m2(0, -i, i, 0);
  case 3:
    return m2(1, 0, 0, -1);
  case 4:
    return m2(1, 0, 0, i);
  case 5:
    return m2(1, 0, 0, -i);
  case 6:
    return m2(1, 0, 0, cplx(s, s));
  case 7:
    return m2(1, 0, 0, cplx(s, -s));
  case 8:
    return m2(s, cplx(0, -s), cplx(0, -s), s);
  case 9:
    return m2(s, cplx(0, s), cplx(0, s), s);
  case 10:
    return m2(cplx(.5, .5), cplx(.5, -.5), cplx(.5, -.5), cplx(.5, .5));
  default:
    return m2(s, -s, s, s);
  }
}
inline Mat u3(double th, double ph, double la) {
  const double c = std::cos(th / 2);
  const double s = std::sin(th / 2);
  return m2(c, -ex(la) * s, ex(ph) * s, ex(la + ph) * c);
}
inline Mat rx(double t) {
  return m2(std::cos(t / 2), cplx(0, -std::sin(t / 2)),
            cplx(0, -std::sin(t / 2)), std::cos(t / 2));
}
inline Mat ry(double t) {
  return m2(std::cos(t / 2), -std::sin(t / 2), std::sin(t / 2),
            std::cos(t / 2));
}
inline Mat rz(double t) { return m2(ex(-t / 2), 0, 0, ex(t / 2)); }
inline Mat ph(double t) { return m2(1, 0, 0, ex(t)); }
// whether angles of unusual size and with short decimals occur (they matter
// where numbers are written to text)
inline bool& exoticAngles() {
  static bool on = false;
  return on;
}
inline double ang(sim::u64 r) { // angle in (-2pi, 2pi), some special values
  if (exoticAngles() && (r >> 50) % 3 == 0) {
    const double sign = (r >> 40) % 2 == 0 ? 1 : -1;
    const double m = 1 + static_cast<double>((r >> 30) % 9);
    const int e = static_cast<int>((r >> 20) % 19) - 13;
    return (r >> 10) % 4 == 0 ? sign * m : sign * m * std::pow(10., e);
  }
  switch (r % 7) {
  case 0:
    return PI / 4 * static_cast<double>((r >> 8) % 16);
  case 1:
    return -PI / 4 * static_cast<double>((r >> 8) % 8);
  default:
    return (static_cast<double>(sim::mix(r) >> 11) * 0x1.0p-53 - 0.5) * 4 * PI;
  }
}
} // namespace gt
