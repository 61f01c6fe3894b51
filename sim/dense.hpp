// Dense reference linear algebra (trivial on purpose).
#pragma once
#include <cmath>
#include <complex>
#include <cstddef>
#include <utility>
#include <vector>

namespace dn {
using cplx = std::complex<double>;
using Vec = std::vector<cplx>;
struct Mat {
  std::size_t d = 1;
  std::vector<cplx> a = {1};
  Mat() = default;
  explicit Mat(std::size_t dim) : d(dim), a(dim * dim, 0) {}
  cplx& at(std::size_t r, std::size_t c) { return a[r * d + c]; }
  const cplx& at(std::size_t r, std::size_t c) const { return a[r * d + c]; }
  static Mat id(std::size_t dim) {
    Mat m(dim);
    for (std::size_t i = 0; i < dim; i++) {
      m.at(i, i) = 1;
    }
    return m;
  }
};
inline std::size_t lg(std::size_t d) {
  std::size_t n = 0;
  while ((std::size_t{1} << n) < d) {
    n++;
  }
  return n;
}
inline Mat mul(const Mat& x, const Mat& y) {
  Mat r(x.d);
  for (std::size_t i = 0; i < x.d; i++) {
    for (std::size_t k = 0; k < x.d; k++) {
      const cplx v = x.at(i, k);
      if (v == cplx(0)) {
        continue;
      }
      for (std::size_t j = 0; j < x.d; j++) {
        r.at(i, j) += v * y.at(k, j);
      }
    }
  }
  return r;
}
inline Vec mul(const Mat& x, const Vec& y) {
  Vec r(x.d, 0);
  for (std::size_t i = 0; i < x.d; i++) {
    for (std::size_t j = 0; j < x.d; j++) {
      r[i] += x.at(i, j) * y[j];
    }
  }
  return r;
}
inline Mat kron(const Mat& x, const Mat& y) { // x on the high qubits
  Mat r(x.d * y.d);
  for (std::size_t i = 0; i < x.d; i++) {
    for (std::size_t j = 0; j < x.d; j++) {
      for (std::size_t k = 0; k < y.d; k++) {
        for (std::size_t l = 0; l < y.d; l++) {
          r.at(i * y.d + k, j * y.d + l) = x.at(i, j) * y.at(k, l);
        }
      }
    }
  }
  return r;
}
inline Vec kron(const Vec& x, const Vec& y) {
  Vec r(x.size() * y.size());
  for (std::size_t i = 0; i < x.size(); i++) {
    for (std::size_t k = 0; k < y.size(); k++) {
      r[i * y.size() + k] = x[i] * y[k];
    }
  }
  return r;
}
inline Mat extend(const Mat& m, std::size_t d) { // identity on high qubits
  return m.d >= d ? m : kron(Mat::id(d / m.d), m);
}
inline Mat dagger(const Mat& m) {
  Mat r(m.d);
  for (std::size_t i = 0; i < m.d; i++) {
    for (std::size_t j = 0; j < m.d; j++) {
      r.at(j, i) = std::conj(m.at(i, j));
    }
  }
  return r;
}
inline Mat add(const Mat& x, const Mat& y, cplx s = 1) {
  Mat r = x;
  for (std::size_t i = 0; i < r.a.size(); i++) {
    r.a[i] += s * y.a[i];
  }
  return r;
}
inline cplx trace(const Mat& m) {
  cplx t = 0;
  for (std::size_t i = 0; i < m.d; i++) {
    t += m.at(i, i);
  }
  return t;
}
inline cplx dot(const Vec& x, const Vec& y) {
  cplx t = 0;
  for (std::size_t i = 0; i < x.size(); i++) {
    t += std::conj(x[i]) * y[i];
  }
  return t;
}
inline double norm2(const Vec& x) { return dot(x, x).real(); }
inline double maxAbs(const std::vector<cplx>& a) {
  double m = 0;
  for (const auto& c : a) {
    m = std::max(m, std::abs(c));
  }
  return m;
}
inline double dist(const std::vector<cplx>& a, const std::vector<cplx>& b) {
  if (a.size() != b.size()) {
    return 1e300;
  }
  double m = 0;
  for (std::size_t i = 0; i < a.size(); i++) {
    const double e = std::abs(a[i] - b[i]);
    if (!(e <= m)) {
      m = e; // also catches NaN
    }
  }
  return m;
}
// k-qubit gate on given qubits (targets[0] is the most significant index of
// `u`), with controls
inline Mat embed(const Mat& u, const std::vector<std::size_t>& targets,
                 const std::vector<std::pair<std::size_t, bool>>& controls,
                 std::size_t n) {
  const std::size_t d = std::size_t{1} << n;
  Mat r(d);
  const std::size_t k = targets.size();
  for (std::size_t c = 0; c < d; c++) {
    bool on = true;
    for (const auto& [q, pos] : controls) {
      if ((((c >> q) & 1U) != 0) != pos) {
        on = false;
      }
    }
    if (!on) {
      r.at(c, c) = 1;
      continue;
    }
    std::size_t in = 0;
    for (std::size_t t = 0; t < k; t++) {
      in = (in << 1U) | ((c >> targets[t]) & 1U);
    }
    for (std::size_t o = 0; o < u.d; o++) {
      std::size_t row = c;
      for (std::size_t t = 0; t < k; t++) {
        const std::size_t bit = (o >> (k - 1 - t)) & 1U;
        row = (row & ~(std::size_t{1} << targets[t])) | (bit << targets[t]);
      }
      r.at(row, c) += u.at(o, in);
    }
  }
  return r;
}
} // namespace dn
