// Building circuits through the circuit API from plan steps.
#pragma once
#include "circ.hpp"

namespace circ {
// the named member function for a gate (plain, singly and multiply controlled)
inline void viaApi(qc::QuantumComputation& q, const GateInst& g) {
  const auto& t = g.targets;
  const auto& p = g.p;
  const auto& c = g.controls;
  const std::size_t nc = c.size();
  const auto c0 = nc > 0 ? *c.begin() : qc::Control{0};
#define ONE(T, f)                                                              \
  case qc::T:                                                                  \
    nc == 0 ? q.f(t[0]) : nc == 1 ? q.c##f(c0, t[0]) : q.mc##f(c, t[0]);       \
    return;
#define ONEP(T, f)                                                             \
  case qc::T:                                                                  \
    nc == 0   ? q.f(p[0], t[0])                                                \
    : nc == 1 ? q.c##f(p[0], c0, t[0])                                         \
              : q.mc##f(p[0], c, t[0]);                                        \
    return;
#define TWO(T, f)                                                              \
  case qc::T:                                                                  \
    nc == 0   ? q.f(t[0], t[1])                                                \
    : nc == 1 ? q.c##f(c0, t[0], t[1])                                         \
              : q.mc##f(c, t[0], t[1]);                                        \
    return;
#define TWOP(T, f)                                                             \
  case qc::T:                                                                  \
    nc == 0   ? q.f(p[0], t[0], t[1])                                          \
    : nc == 1 ? q.c##f(p[0], c0, t[0], t[1])                                   \
              : q.mc##f(p[0], c, t[0], t[1]);                                  \
    return;
#define TWOPP(T, f)                                                            \
  case qc::T:                                                                  \
    nc == 0   ? q.f(p[0], p[1], t[0], t[1])                                    \
    : nc == 1 ? q.c##f(p[0], p[1], c0, t[0], t[1])                             \
              : q.mc##f(p[0], p[1], c, t[0], t[1]);                            \
    return;
  switch (g.t) {
    ONE(I, i)
    ONE(H, h)
    ONE(X, x)
    ONE(Y, y)
    ONE(Z, z)
    ONE(S, s)
    ONE(Sdg, sdg)
    ONE(T, t)
    ONE(Tdg, tdg)
    ONE(SX, sx)
    ONE(SXdg, sxdg)
    ONE(V, v)
    ONE(Vdg, vdg)
    ONEP(P, p)
    ONEP(RX, rx)
    ONEP(RY, ry)
    ONEP(RZ, rz)
    TWO(SWAP, swap)
    TWO(iSWAP, iswap)
    TWO(iSWAPdg, iswapdg)
    TWO(ECR, ecr)
    TWO(DCX, dcx)
    TWO(Peres, peres)
    TWO(Peresdg, peresdg)
    TWOP(RXX, rxx)
    TWOP(RYY, ryy)
    TWOP(RZZ, rzz)
    TWOP(RZX, rzx)
    TWOPP(XXminusYY, xx_minus_yy)
    TWOPP(XXplusYY, xx_plus_yy)
  case qc::U:
    nc == 0   ? q.u(p[0], p[1], p[2], t[0])
    : nc == 1 ? q.cu(p[0], p[1], p[2], c0, t[0])
              : q.mcu(p[0], p[1], p[2], c, t[0]);
    return;
  case qc::U2:
    nc == 0   ? q.u2(p[0], p[1], t[0])
    : nc == 1 ? q.cu2(p[0], p[1], c0, t[0])
              : q.mcu2(p[0], p[1], c, t[0]);
    return;
  default:
    throw std::logic_error("gate without member function");
  }
#undef ONE
#undef ONEP
#undef TWO
#undef TWOP
#undef TWOPP
}

// The physical indices of a circuit's qubits: consecutive, or (gap != 0) with
// gaps where qubits were removed again; logical labels are consecutive
struct Phys {
  std::vector<qc::Qubit> at; // empty: the identity

  // turns `q` (a circuit without operations) into one with `n` qubits
  void make(qc::QuantumComputation& q, std::size_t n, std::size_t nc,
            std::size_t seed, u64 gap) {
    const std::size_t total = gap == 0 ? n : n + 1 + gap % 3;
    q = qc::QuantumComputation(total, nc, seed);
    std::vector<bool> gone(total, false);
    for (std::size_t k = 0, left = total - n; left > 0; k++) {
      const auto x = sim::mix(gap + k) % total;
      if (!gone[x]) {
        gone[x] = true;
        left--;
        q.removeQubit(static_cast<qc::Qubit>(x));
      }
    }
    at.clear();
    for (std::size_t x = 0; x < total; x++) {
      if (!gone[x]) {
        at.push_back(static_cast<qc::Qubit>(x));
      }
    }
    if (gap != 0) {
      q.initialLayout.clear();
      q.outputPermutation.clear();
      for (std::size_t i = 0; i < n; i++) {
        q.initialLayout[at[i]] = static_cast<qc::Qubit>(i);
        q.outputPermutation[at[i]] = static_cast<qc::Qubit>(i);
      }
    }
  }
  qc::Qubit of(qc::Qubit l) const { return at.empty() ? l : at[l]; }
  qc::Controls on(const qc::Controls& c) const {
    qc::Controls r;
    for (const auto& k : c) {
      r.emplace(of(k.qubit), k.type);
    }
    return r;
  }
  GateInst on(GateInst g) const {
    for (auto& t : g.targets) {
      t = of(t);
    }
    g.controls = on(g.controls);
    return g;
  }
};

// A circuit under construction with its reference
struct Builder {
  qc::QuantumComputation q;
  Phys phys;
  std::vector<Ref> refs;
  std::size_t nq;
  double gphase = 0;
  std::unique_ptr<qc::CompoundOperation> comp;
  std::size_t compLeft = 0;
  std::vector<std::string> text;

  explicit Builder(std::size_t n, std::size_t nc = 0, std::size_t seed = 0,
                   u64 gap = 0)
      : nq(n) {
    phys.make(q, n, nc, seed, gap);
  }

  void put(std::unique_ptr<qc::Operation> op, Ref r) {
    text.push_back(r.desc);
    refs.push_back(std::move(r));
    if (comp) {
      comp->emplace_back(std::move(op));
      closeComp(false);
    } else {
      q.emplace_back(std::move(op));
    }
  }
  void closeComp(bool force) {
    if (comp && (force || --compLeft == 0)) {
      if (!comp->empty()) {
        q.emplace_back(std::unique_ptr<qc::Operation>(std::move(comp)));
      }
      comp.reset();
    }
  }
  void gate(const GateInst& g, bool api) {
    Ref r = refOf(g);
    if (api && !comp) {
      text.push_back(r.desc);
      refs.push_back(std::move(r));
      viaApi(q, phys.on(g));
      return;
    }
    put(opOf(phys.on(g)), std::move(r));
  }
  // a (possibly controlled) global phase operation
  void phaseOp(double a, const qc::Controls& cs) {
    Ref r;
    r.kind = Ref::U;
    r.u = Mat(1);
    r.u.at(0, 0) = gt::ex(a);
    for (const auto& c : cs) {
      r.controls.emplace_back(c.qubit, c.type == qc::Control::Type::Pos);
    }
    r.desc = sim::fmt("gphase %.4f with %zu controls", a, cs.size());
    put(std::make_unique<qc::StandardOperation>(phys.on(cs), qc::Targets{}, qc::GPhase,
                                                std::vector<qc::fp>{a}),
        std::move(r));
  }
  void barrier() {
    closeComp(true);
    q.barrier();
    text.push_back("barrier");
    Ref r;
    refs.push_back(r);
  }
};

inline qc::Controls controlsFrom(sim::u64 s, std::size_t nq, std::size_t k) {
  const auto o = permutation(s, nq);
  qc::Controls c;
  for (std::size_t i = 0; i < std::min(k, nq); i++) {
    c.emplace(static_cast<qc::Qubit>(o[i]), ((s >> (40 + i)) & 1U) != 0
                                                ? qc::Control::Type::Pos
                                                : qc::Control::Type::Neg);
  }
  return c;
}
} // namespace circ
