// Independent evaluation of decision diagrams by walking their nodes.
#pragma once
#include "core/sim.hpp"
#include "dense.hpp"

#include "dd/Node.hpp"
#include "dd/Package.hpp"
#include "dd/RealNumber.hpp"

#include <memory>
#include <set>
#include <unordered_set>

namespace ddu {
using dn::cplx;
using dn::Mat;
using dn::Vec;

struct Malformed {
  std::string why;
};

inline cplx wt(const dd::Complex& w) {
  const dd::ComplexValue v(w);
  return {v.r, v.i};
}

inline void evalV(const dd::vEdge& e, std::size_t n, cplx w, std::size_t off,
                  Vec& out) {
  const cplx ww = w * wt(e.w);
  if (e.w.exactlyZero()) {
    return;
  }
  if (n == 0) {
    if (!e.isTerminal()) {
      throw Malformed{"non-terminal below the lowest level"};
    }
    out[off] += ww;
    return;
  }
  if (e.isTerminal()) {
    throw Malformed{"non-zero terminal above the lowest level of a vector"};
  }
  if (e.p->v != n - 1) {
    throw Malformed{sim::fmt("vector node at level %u where %zu is expected",
                             unsigned(e.p->v), n - 1)};
  }
  evalV(e.p->e[0], n - 1, ww, off, out);
  evalV(e.p->e[1], n - 1, ww, off + (std::size_t{1} << (n - 1)), out);
}
inline Vec eval(const dd::vEdge& e, std::size_t n) {
  Vec out(std::size_t{1} << n, 0);
  evalV(e, n, 1, 0, out);
  return out;
}

template <class Node>
void evalM(const dd::Edge<Node>& e, std::size_t n, cplx w, std::size_t r,
           std::size_t c, Mat& out) {
  if (e.w.exactlyZero()) {
    return;
  }
  const cplx ww = w * wt(e.w);
  if (e.isTerminal()) {
    for (std::size_t i = 0; i < (std::size_t{1} << n); i++) {
      out.at(r + i, c + i) += ww;
    }
    return;
  }
  if (n == 0) {
    throw Malformed{"non-terminal below the lowest level"};
  }
  const std::size_t h = std::size_t{1} << (n - 1);
  if (e.p->v > n - 1) {
    throw Malformed{sim::fmt("matrix node at level %u where at most %zu is "
                             "expected",
                             unsigned(e.p->v), n - 1)};
  }
  if (e.p->v < n - 1) {
    dd::Edge<Node> f{e.p, dd::Complex::one()};
    evalM(f, n - 1, ww, r, c, out);
    evalM(f, n - 1, ww, r + h, c + h, out);
    return;
  }
  evalM(e.p->e[0], n - 1, ww, r, c, out);
  evalM(e.p->e[1], n - 1, ww, r, c + h, out);
  evalM(e.p->e[2], n - 1, ww, r + h, c, out);
  evalM(e.p->e[3], n - 1, ww, r + h, c + h, out);
}
inline Mat eval(const dd::mEdge& e, std::size_t n) {
  Mat out(std::size_t{1} << n);
  evalM(e, n, 1, 0, 0, out);
  return out;
}

// A density-matrix diagram: diagonal children are density matrices again, the
// upper off-diagonal child is a plain matrix, the lower one is stored as the
// upper one and stands for its conjugate transpose.
enum class DK { Dens, Plain, Conj };
inline void evalD(const dd::dEdge& e, DK k, std::size_t n, cplx w,
                  std::size_t r, std::size_t c, Mat& out) {
  if (e.w.exactlyZero()) {
    return;
  }
  auto* p = reinterpret_cast<dd::dNode*>(reinterpret_cast<std::uintptr_t>(e.p) &
                                         ~std::uintptr_t{7});
  const cplx ew = wt(e.w);
  const cplx ww = w * (k == DK::Conj ? std::conj(ew) : ew);
  if (p == nullptr) {
    for (std::size_t i = 0; i < (std::size_t{1} << n); i++) {
      out.at(r + i, c + i) += ww;
    }
    return;
  }
  if (n == 0) {
    throw Malformed{"non-terminal below the lowest level"};
  }
  const std::size_t h = std::size_t{1} << (n - 1);
  if (p->v > n - 1) {
    throw Malformed{"density node above its level"};
  }
  if (p->v < n - 1) {
    const dd::dEdge f{p, dd::Complex::one()};
    evalD(f, k, n - 1, ww, r, c, out);
    evalD(f, k, n - 1, ww, r + h, c + h, out);
    return;
  }
  const bool d = k == DK::Dens;
  const bool t = k == DK::Conj;
  evalD(p->e[0], k, n - 1, ww, r, c, out);
  evalD(p->e[t ? 2 : 1], d ? DK::Plain : k, n - 1, ww, r, c + h, out);
  evalD(p->e[t ? 1 : 2], d ? DK::Conj : k, n - 1, ww, r + h, c, out);
  evalD(p->e[3], k, n - 1, ww, r + h, c + h, out);
}
inline Mat eval(const dd::dEdge& e, std::size_t n) {
  Mat out(std::size_t{1} << n);
  evalD(e, DK::Dens, n, 1, 0, 0, out);
  return out;
}

// Package configurations with unusual (legal) table sizes
inline std::size_t p2(sim::u64 k, sim::u64 maxLog) {
  return std::size_t{1} << (k % (maxLog + 1));
}
inline dd::DDPackageConfig configFrom(sim::u64 r) {
  dd::DDPackageConfig f;
  if (r == 0) {
    return f;
  }
  sim::u64 s = r;
  auto rnd = [&]() { return s = sim::mix(s); };
  const sim::u64 ml = 1 + (r % 12); // upper bound for table logs
  f.utVecNumBucket = p2(rnd(), ml);
  f.utMatNumBucket = p2(rnd(), ml);
  f.utDmNumBucket = p2(rnd(), 4);
  f.utVecInitialAllocationSize = 1 + (rnd() % (r % 3 == 0 ? 4 : 256));
  f.utMatInitialAllocationSize = 1 + (rnd() % (r % 3 == 0 ? 4 : 256));
  f.utDmInitialAllocationSize = 1 + (rnd() % 16);
  for (auto* t :
       {&f.ctVecAddNumBucket, &f.ctMatAddNumBucket, &f.ctVecAddMagNumBucket,
        &f.ctMatAddMagNumBucket, &f.ctVecConjNumBucket,
        &f.ctMatConjTransNumBucket, &f.ctMatVecMultNumBucket,
        &f.ctMatMatMultNumBucket, &f.ctVecKronNumBucket, &f.ctMatKronNumBucket,
        &f.ctDmTraceNumBucket, &f.ctMatTraceNumBucket,
        &f.ctVecInnerProdNumBucket, &f.ctDmNoiseNumBucket,
        &f.ctDmDmMultNumBucket, &f.ctDmAddNumBucket}) {
    *t = p2(rnd(), ml);
  }
  if (r % 29 == 7) { // larger than any built-in default
    f.ctVecConjNumBucket = f.ctMatTraceNumBucket = 1U << 17U;
  }
  f.stochasticCacheOps = 1 + (rnd() % 2);
  return f;
}

// Legal (public-API) table configurations with small collection limits, so
// that automatic collections happen inside short histories.
inline void setLimits(dd::Package& p, const dd::DDPackageConfig& f, sim::u64 k) {
  if (k == 0) {
    return;
  }
  sim::u64 s = k;
  auto lim = [&]() -> std::size_t {
    s = sim::mix(s);
    switch (s % 5) {
    case 0:
      return 131072U;
    case 1:
      return 1 + ((s >> 8) % 4);
    default:
      return 1 + ((s >> 8) % 60);
    }
  };
  const auto n = p.qubits();
  p.cMemoryManager.reset(true);
  p.cUniqueTable = dd::RealNumberUniqueTable(p.cMemoryManager, lim());
  p.vUniqueTable =
      dd::UniqueTable(p.vMemoryManager, {0, f.utVecNumBucket, lim()});
  p.vUniqueTable.resize(n);
  p.mUniqueTable =
      dd::UniqueTable(p.mMemoryManager, {0, f.utMatNumBucket, lim()});
  p.mUniqueTable.resize(n);
  p.dUniqueTable =
      dd::UniqueTable(p.dMemoryManager, {0, f.utDmNumBucket, lim()});
  p.dUniqueTable.resize(n);
}

// reachable nodes and numbers
struct Reach {
  std::set<const void*> v, m, nums;
  void num(const dd::RealNumber* p) {
    const auto* q = dd::RealNumber::getAlignedPointer(p);
    if (q != &dd::constants::zero && q != &dd::constants::one &&
        q != &dd::constants::sqrt2over2) {
      nums.insert(q);
    }
  }
  void w(const dd::Complex& c) {
    num(c.r);
    num(c.i);
  }
  void add(const dd::vEdge& e) {
    w(e.w);
    if (e.isTerminal() || !v.insert(e.p).second) {
      return;
    }
    for (const auto& c : e.p->e) {
      add(c);
    }
  }
  void add(const dd::mEdge& e) {
    w(e.w);
    if (e.isTerminal() || !m.insert(e.p).second) {
      return;
    }
    for (const auto& c : e.p->e) {
      add(c);
    }
  }
};
} // namespace ddu
