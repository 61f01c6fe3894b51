// Random circuits built through the public circuit API together with an
// independent list of reference operations (dense matrices per operation).
#pragma once
#include "core/sim.hpp"
#include "dense.hpp"
#include "gates.hpp"

#include "ir/QuantumComputation.hpp"
#include "ir/operations/ClassicControlledOperation.hpp"
#include "ir/operations/CompoundOperation.hpp"
#include "ir/operations/NonUnitaryOperation.hpp"
#include "ir/operations/StandardOperation.hpp"

#include <memory>
#include <vector>

namespace circ {
using dn::cplx;
using dn::Mat;
using dn::Vec;
using sim::u64;

struct GateDef {
  qc::OpType t;
  const char* name;
  int nq; // targets
  int np; // parameters
};
inline const std::vector<GateDef>& gateDefs() {
  static const std::vector<GateDef> d{
      {qc::I, "i", 1, 0},          {qc::H, "h", 1, 0},
      {qc::X, "x", 1, 0},          {qc::Y, "y", 1, 0},
      {qc::Z, "z", 1, 0},          {qc::S, "s", 1, 0},
      {qc::Sdg, "sdg", 1, 0},      {qc::T, "t", 1, 0},
      {qc::Tdg, "tdg", 1, 0},      {qc::SX, "sx", 1, 0},
      {qc::SXdg, "sxdg", 1, 0},    {qc::V, "v", 1, 0},
      {qc::Vdg, "vdg", 1, 0},      {qc::U, "u", 1, 3},
      {qc::U2, "u2", 1, 2},        {qc::P, "p", 1, 1},
      {qc::RX, "rx", 1, 1},        {qc::RY, "ry", 1, 1},
      {qc::RZ, "rz", 1, 1},        {qc::SWAP, "swap", 2, 0},
      {qc::iSWAP, "iswap", 2, 0},  {qc::iSWAPdg, "iswapdg", 2, 0},
      {qc::ECR, "ecr", 2, 0},      {qc::DCX, "dcx", 2, 0},
      {qc::Peres, "peres", 2, 0},  {qc::Peresdg, "peresdg", 2, 0},
      {qc::RXX, "rxx", 2, 1},      {qc::RYY, "ryy", 2, 1},
      {qc::RZZ, "rzz", 2, 1},      {qc::RZX, "rzx", 2, 1},
      {qc::XXminusYY, "xx_minus_yy", 2, 2},
      {qc::XXplusYY, "xx_plus_yy", 2, 2}};
  return d;
}
inline Mat pauli(char c) {
  using gt::m2;
  const cplx i(0, 1);
  switch (c) {
  case 'X':
    return m2(0, 1, 1, 0);
  case 'Y':
    return m2(0, -i, i, 0);
  case 'Z':
    return m2(1, 0, 0, -1);
  default:
    return m2(1, 0, 0, 1);
  }
}
inline Mat scale(Mat m, cplx s) {
  for (auto& x : m.a) {
    x *= s;
  }
  return m;
}
// exp(-i t/2 A) for an involution A
inline Mat expInv(const Mat& a, double t) {
  return dn::add(scale(Mat::id(a.d), std::cos(t / 2)), a,
                 cplx(0, -std::sin(t / 2)));
}
inline Mat cxMat(bool firstControls) {
  Mat m(4);
  for (int a = 0; a < 2; a++) {
    for (int b = 0; b < 2; b++) {
      const int na = firstControls ? a : a ^ b;
      const int nb = firstControls ? b ^ a : b;
      m.at(na * 2 + nb, a * 2 + b) = 1;
    }
  }
  return m;
}
// textbook definition of a gate; first target is the most significant index
inline Mat refGate(qc::OpType t, const std::vector<double>& p) {
  using dn::kron;
  using dn::mul;
  const double s = std::sqrt(0.5);
  const cplx i(0, 1);
  const Mat id2 = Mat::id(2);
  switch (t) {
  case qc::I:
    return id2;
  case qc::H:
    return gt::m2(s, s, s, -s);
  case qc::X:
    return pauli('X');
  case qc::Y:
    return pauli('Y');
  case qc::Z:
    return pauli('Z');
  case qc::S:
    return gt::ph(gt::PI / 2);
  case qc::Sdg:
    return gt::ph(-gt::PI / 2);
  case qc::T:
    return gt::ph(gt::PI / 4);
  case qc::Tdg:
    return gt::ph(-gt::PI / 4);
  case qc::SX:
    return scale(gt::rx(gt::PI / 2), gt::ex(gt::PI / 4));
  case qc::SXdg:
    return scale(gt::rx(-gt::PI / 2), gt::ex(-gt::PI / 4));
  case qc::V:
    return gt::rx(gt::PI / 2);
  case qc::Vdg:
    return gt::rx(-gt::PI / 2);
  case qc::U:
    return gt::u3(p[0], p[1], p[2]);
  case qc::U2:
    return gt::u3(gt::PI / 2, p[0], p[1]);
  case qc::P:
    return gt::ph(p[0]);
  case qc::RX:
    return gt::rx(p[0]);
  case qc::RY:
    return gt::ry(p[0]);
  case qc::RZ:
    return gt::rz(p[0]);
  case qc::SWAP:
    return mul(cxMat(true), mul(cxMat(false), cxMat(true)));
  case qc::iSWAP:
  case qc::iSWAPdg: {
    const double sg = t == qc::iSWAP ? 1 : -1;
    return mul(expInv(kron(pauli('X'), pauli('X')), -sg * gt::PI / 2),
               expInv(kron(pauli('Y'), pauli('Y')), -sg * gt::PI / 2));
  }
  case qc::ECR:
    return scale(dn::add(kron(pauli('X'), id2), kron(pauli('Y'), pauli('X')),
                         -1),
                 s);
  case qc::DCX:
    return mul(cxMat(false), cxMat(true));
  case qc::Peres: // CX(first -> second), then X on the first
    return mul(kron(pauli('X'), id2), cxMat(true));
  case qc::Peresdg:
    return mul(cxMat(true), kron(pauli('X'), id2));
  case qc::RXX:
    return expInv(kron(pauli('X'), pauli('X')), p[0]);
  case qc::RYY:
    return expInv(kron(pauli('Y'), pauli('Y')), p[0]);
  case qc::RZZ:
    return expInv(kron(pauli('Z'), pauli('Z')), p[0]);
  case qc::RZX:
    return expInv(kron(pauli('Z'), pauli('X')), p[0]);
  case qc::XXminusYY: {
    // RZ_b(beta) exp(-i t/2 (XX-YY)/2) RZ_b(-beta), b = second target
    const Mat e = mul(expInv(kron(pauli('X'), pauli('X')), p[0] / 2),
                      expInv(kron(pauli('Y'), pauli('Y')), -p[0] / 2));
    return mul(kron(id2, gt::rz(p[1])), mul(e, kron(id2, gt::rz(-p[1]))));
  }
  case qc::XXplusYY: {
    // RZ_a(-beta) exp(-i t/2 (XX+YY)/2) RZ_a(beta), a = first target
    const Mat e = mul(expInv(kron(pauli('X'), pauli('X')), p[0] / 2),
                      expInv(kron(pauli('Y'), pauli('Y')), p[0] / 2));
    return mul(kron(gt::rz(-p[1]), id2), mul(e, kron(gt::rz(p[1]), id2)));
  }
  default:
    throw std::logic_error("no reference for this gate");
  }
}

struct Ref { // one reference operation (circuit qubit indices)
  enum Kind { U, MEAS, RESET, NOP } kind = NOP;
  Mat u;
  std::vector<std::size_t> targets;
  std::vector<std::pair<std::size_t, bool>> controls;
  std::vector<std::size_t> bits; // MEAS: one per target
  // classical condition
  bool cond = false;
  std::size_t cstart = 0, csize = 1;
  u64 cval = 0;
  int cmp = 0; // ==,!=,<,<=,>,>=
  std::string desc;
};
inline bool holds(const Ref& r, u64 bits) {
  if (!r.cond) {
    return true;
  }
  const u64 v = (bits >> r.cstart) & ((u64{1} << r.csize) - 1);
  switch (r.cmp) {
  case 0:
    return v == r.cval;
  case 1:
    return v != r.cval;
  case 2:
    return v < r.cval;
  case 3:
    return v <= r.cval;
  case 4:
    return v > r.cval;
  default:
    return v >= r.cval;
  }
}

struct GateInst {
  qc::OpType t;
  std::vector<double> p;
  qc::Targets targets;
  qc::Controls controls;
  std::string text() const {
    std::string s = qc::toString(t);
    for (const double x : p) {
      s += sim::fmt(" %.4f", x);
    }
    for (const auto& c : controls) {
      s += sim::fmt(" %c%u", c.type == qc::Control::Type::Pos ? '+' : '-',
                    unsigned(c.qubit));
    }
    s += " ->";
    for (const auto q : targets) {
      s += sim::fmt(" %u", unsigned(q));
    }
    return s;
  }
};
// decode a gate from four numbers; nq >= 1 qubits available
inline GateInst decode(u64 ty, u64 q, u64 cs, u64 ps, std::size_t nq,
                       unsigned maxControls = 3,
                       const std::vector<int>* allowed = nullptr) {
  const auto& defs = gateDefs();
  const GateDef* d = nullptr;
  for (u64 k = 0;; k++) {
    const auto idx = allowed != nullptr
                         ? static_cast<u64>((*allowed)[(ty + k) % allowed->size()])
                         : (ty + k) % defs.size();
    d = &defs[idx];
    if (static_cast<std::size_t>(d->nq) <= nq) {
      break;
    }
  }
  GateInst g;
  g.t = d->t;
  std::vector<std::size_t> order(nq);
  for (std::size_t k = 0; k < nq; k++) {
    order[k] = k;
  }
  u64 s = q;
  for (std::size_t k = nq; k > 1; k--) {
    std::swap(order[k - 1], order[s % k]);
    s /= k;
  }
  for (int k = 0; k < d->nq; k++) {
    g.targets.push_back(static_cast<qc::Qubit>(order[k]));
  }
  const std::size_t room = nq - static_cast<std::size_t>(d->nq);
  std::size_t nc = 0;
  switch (cs % 8) { // mostly few controls
  case 0:
  case 1:
  case 2:
    nc = 1;
    break;
  case 3:
    nc = 2;
    break;
  case 4:
    nc = 3;
    break;
  default:
    break;
  }
  nc = std::min<std::size_t>({nc, room, maxControls});
  for (std::size_t k = 0; k < nc; k++) {
    const bool neg = ((cs >> (8 + 2 * k)) & 3U) == 0;
    g.controls.emplace(static_cast<qc::Qubit>(order[d->nq + k]),
                       neg ? qc::Control::Type::Neg : qc::Control::Type::Pos);
  }
  for (int k = 0; k < d->np; k++) {
    g.p.push_back(gt::ang(sim::mix(ps + static_cast<u64>(k) * 77)));
  }
  return g;
}
inline Ref refOf(const GateInst& g) {
  Ref r;
  r.kind = Ref::U;
  r.u = refGate(g.t, g.p);
  r.desc = g.text();
  for (const auto q : g.targets) {
    r.targets.push_back(q);
  }
  for (const auto& c : g.controls) {
    r.controls.emplace_back(c.qubit, c.type == qc::Control::Type::Pos);
  }
  return r;
}
inline std::unique_ptr<qc::Operation> opOf(const GateInst& g) {
  return std::make_unique<qc::StandardOperation>(g.controls, g.targets, g.t,
                                                 g.p);
}

inline std::vector<std::size_t> permutation(u64 r, std::size_t n) {
  std::vector<std::size_t> o(n);
  for (std::size_t k = 0; k < n; k++) {
    o[k] = k;
  }
  for (std::size_t k = n; k > 1; k--) {
    std::swap(o[k - 1], o[r % k]);
    r /= k;
  }
  return o;
}

// exact outcome distribution over classical bits by branch enumeration
struct Branch {
  double p;
  u64 bits;
  Vec v;
};
inline void applyU(const Ref& r, Vec& v,
                   const std::vector<std::size_t>& pos) {
  std::vector<std::size_t> t;
  for (const auto q : r.targets) {
    t.push_back(pos[q]);
  }
  std::vector<std::pair<std::size_t, bool>> c;
  for (const auto& [q, b] : r.controls) {
    c.emplace_back(pos[q], b);
  }
  const Mat& u = r.u;
  const std::size_t k = t.size();
  Vec out = v;
  std::size_t tm = 0;
  for (const auto q : t) {
    tm |= std::size_t{1} << q;
  }
  std::vector<std::size_t> idx(u.d);
  for (std::size_t b = 0; b < v.size(); b++) {
    if ((b & tm) != 0) {
      continue;
    }
    bool on = true;
    for (const auto& [q, pol] : c) {
      on = on && (((b >> q) & 1U) != 0) == pol;
    }
    if (!on) {
      continue;
    }
    for (std::size_t a = 0; a < u.d; a++) {
      idx[a] = b;
      for (std::size_t j = 0; j < k; j++) {
        if (((a >> (k - 1 - j)) & 1U) != 0) {
          idx[a] |= std::size_t{1} << t[j];
        }
      }
    }
    for (std::size_t a = 0; a < u.d; a++) {
      cplx s = 0;
      for (std::size_t b2 = 0; b2 < u.d; b2++) {
        s += u.at(a, b2) * v[idx[b2]];
      }
      out[idx[a]] = s;
    }
  }
  v = out;
}
inline double probOne(const Vec& v, std::size_t q) {
  double p = 0;
  for (std::size_t i = 0; i < v.size(); i++) {
    if (((i >> q) & 1U) != 0) {
      p += std::norm(v[i]);
    }
  }
  return p;
}
// summed directly: 1 - probOne() loses small probabilities
inline double probOf(const Vec& v, std::size_t q, bool one) {
  double p = 0;
  for (std::size_t i = 0; i < v.size(); i++) {
    if ((((i >> q) & 1U) != 0) == one) {
      p += std::norm(v[i]);
    }
  }
  return p;
}
inline Vec project(const Vec& v, std::size_t q, bool one, double p) {
  Vec r(v.size(), 0);
  for (std::size_t i = 0; i < v.size(); i++) {
    if ((((i >> q) & 1U) != 0) == one) {
      r[i] = v[i] / std::sqrt(p);
    }
  }
  return r;
}
inline Vec flip(const Vec& v, std::size_t q) {
  Vec r(v.size());
  for (std::size_t i = 0; i < v.size(); i++) {
    r[i ^ (std::size_t{1} << q)] = v[i];
  }
  return r;
}
inline std::vector<Branch> enumerate(const std::vector<Ref>& ops, const Vec& in,
                                     const std::vector<std::size_t>& pos,
                                     double cut = 1e-13) {
  std::vector<Branch> bs{{1, 0, in}};
  for (const auto& r : ops) {
    if (r.kind == Ref::NOP) {
      continue;
    }
    if (r.kind == Ref::U) {
      for (auto& b : bs) {
        if (holds(r, b.bits)) {
          applyU(r, b.v, pos);
        }
      }
      continue;
    }
    for (std::size_t k = 0; k < r.targets.size(); k++) {
      const auto q = pos[r.targets[k]];
      std::vector<Branch> nb;
      for (auto& b : bs) {
        const double p1 = probOne(b.v, q);
        const double p0 = dn::norm2(b.v) - p1;
        for (int o = 0; o < 2; o++) {
          const double p = o == 0 ? p0 : p1;
          if (p * b.p < cut) {
            continue;
          }
          Branch n{b.p * p, b.bits, project(b.v, q, o == 1, p)};
          if (r.kind == Ref::MEAS) {
            n.bits = (n.bits & ~(u64{1} << r.bits[k])) |
                     (static_cast<u64>(o) << r.bits[k]);
          } else if (o == 1) {
            n.v = flip(n.v, q);
          }
          nb.push_back(std::move(n));
        }
      }
      bs = std::move(nb);
      if (bs.size() > 4096) {
        return {};
      }
    }
  }
  return bs;
}
} // namespace circ
