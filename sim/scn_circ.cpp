// P15: functionality and simulation are the circuit's unitary.
#include "pkgbase.hpp"
#include "wide.hpp"

#include "dd/FunctionalityConstruction.hpp"
#include "dd/Simulation.hpp"

#include <set>
#include <algorithm>
#include <memory>

using namespace sim;
using namespace ddu;
using circ::Builder;

namespace {
std::vector<std::size_t> posOf(const qc::Permutation& p, std::size_t n) {
  std::vector<std::size_t> r(n);
  for (std::size_t i = 0; i < n; i++) {
    r[i] = p.at(static_cast<qc::Qubit>(i));
  }
  return r;
}
// content of physical qubit q sits at from[q] and moves to to[q]
std::size_t moveBits(std::size_t i, const std::vector<std::size_t>& from,
                     const std::vector<std::size_t>& to) {
  std::size_t o = 0;
  for (std::size_t q = 0; q < from.size(); q++) {
    if (((i >> from[q]) & 1U) != 0) {
      o |= std::size_t{1} << to[q];
    }
  }
  return o;
}

std::vector<std::size_t> layout(u64 k, std::size_t n) {
  if (k != 0) {
    return circ::permutation(k, n);
  }
  std::vector<std::size_t> o(n);
  for (std::size_t i = 0; i < n; i++) {
    o[i] = i;
  }
  return o;
}

struct S15 : PkgBase {
  using PkgBase::PkgBase;
  u64 execs = 0;

  void setup(Builder& b, std::vector<std::size_t>& in,
             std::vector<std::size_t>& out, u64& anc, u64& garb) {
    in = layout(plan.knob("lay", 0), nq);
    out = layout(plan.knob("out", 0), nq);
    anc = plan.knob("anc", 0) & ((u64{1} << nq) - 1);
    garb = plan.knob("garb", 0) & ((u64{1} << nq) - 1);
    b.q.initialLayout.clear();
    b.q.outputPermutation.clear();
    for (std::size_t q = 0; q < nq; q++) {
      b.q.initialLayout[b.phys.at[q]] =
          static_cast<qc::Qubit>(in[q]);
      b.q.outputPermutation[b.phys.at[q]] =
          static_cast<qc::Qubit>(out[q]);
    }
    for (std::size_t l = 0; l < nq; l++) {
      if (((anc >> l) & 1U) != 0) {
        b.q.setLogicalQubitAncillary(static_cast<qc::Qubit>(l));
      }
      if (((garb >> l) & 1U) != 0) {
        b.q.setLogicalQubitGarbage(static_cast<qc::Qubit>(l));
      }
    }
  }
  Vec reference(const Builder& b, Vec v, const std::vector<std::size_t>& in,
                const std::vector<std::size_t>& out) const {
    for (const auto& r : b.refs) {
      if (r.kind == circ::Ref::U) {
        circ::applyU(r, v, in);
      }
    }
    Vec o(v.size());
    const auto ph = gt::ex(b.gphase);
    for (std::size_t i = 0; i < v.size(); i++) {
      o[moveBits(i, in, out)] = v[i] * ph;
    }
    return o;
  }
  static void reduceV(Vec& x, u64 garb, std::size_t n) {
    for (std::size_t q = 0; q < n; q++) {
      if (((garb >> q) & 1U) == 0) {
        continue;
      }
      for (std::size_t a = 0; a < x.size(); a++) {
        if (((a >> q) & 1U) == 0) {
          auto& o = x[a | (std::size_t{1} << q)];
          x[a] = std::sqrt(std::norm(x[a]) + std::norm(o));
          o = 0;
        }
      }
    }
  }
  void compare(const std::vector<cplx>& got, const std::vector<cplx>& want,
               bool magnitudes, const char* what, const Builder& b) {
    double e = 0;
    if (magnitudes) {
      for (std::size_t i = 0; i < got.size(); i++) {
        const double x = std::abs(std::abs(got[i]) - std::abs(want[i]));
        e = x <= e ? e : x;
      }
    } else {
      e = dn::dist(got, want);
    }
    if (!(e < 1e-7)) {
      c.fail(id + "/value:" + what,
             "%s of a circuit with %zu operations on %zu qubits is off by %.3g",
             what, b.q.size(), nq, e);
    }
  }

  void exec(Builder& b, const Step& st, const std::vector<std::size_t>& in,
            const std::vector<std::size_t>& out, u64 anc, u64 garb) {
    b.closeComp(true);
    b.refs.reserve(b.refs.size());
    const u64 mode = st.at(0) % 3;
    const u64 r = st.at(1);
    const char* nm = mode == 0   ? "simulate"
                     : mode == 1 ? "buildFunctionality"
                                 : "buildFunctionalityRecursive";
    if (c.verbose) {
      for (auto& t : b.text) {
        c.ev("  op %s", t.c_str());
      }
    }
    execs++;
    if (mode == 0) {
      const Vec d = randomState(r);
      const auto x = makeState(d); // held once
      const bool extra = (r >> 50) % 2 == 0;
      if (extra) {
        P->incRef(x);
        hv.push_back({x, nq, evalOr(x, nq, "input"), "input state"});
      }
      const auto e = dd::simulate(b.q, x, *P); // takes over the hold
      const auto got = evalOr(e, nq, nm);
      Vec want = reference(b, d, in, out);
      reduceV(want, garb, nq);
      compare(got, want, garb != 0, nm, b);
      hv.push_back({e, nq, got, "simulation result"});
    } else {
      const auto e = mode == 1 ? dd::buildFunctionality(b.q, *P)
                               : dd::buildFunctionalityRecursive(b.q, *P);
      const auto got = evalOr(e, nq, nm);
      const std::size_t d = std::size_t{1} << nq;
      Mat want(d);
      for (std::size_t col = 0; col < d; col++) {
        if ((col & anc) != 0) {
          continue;
        }
        Vec v(d, 0);
        v[col] = 1;
        v = reference(b, v, in, out);
        reduceV(v, garb, nq);
        for (std::size_t row = 0; row < d; row++) {
          want.at(row, col) = v[row];
        }
      }
      compare(got.a, want.a, garb != 0, nm, b);
      hm.push_back({e, nq, got, "functionality"});
    }
    c.count(std::string("exec-") + nm);
    if (st.at(2) % 3 != 0) {
      onlyHeld(nm);
    }
    verifyHeld(nm);
    drop(st.at(2) % 5 == 0 ? 0 : 3);
    c.ev("%s of %zu operations, %zu vector and %zu matrix nodes", nm,
         b.q.size(), P->vUniqueTable.getNumEntries(),
         P->mUniqueTable.getNumEntries());
    c.cover(mix(b.q.size()) ^ mix(P->vUniqueTable.getNumEntries() * 77 + mode) ^
            mix(anc * 16 + garb));
  }

  // moving the qubits of a held diagram to other levels
  void relabel(const Step& st) {
    const auto f = circ::permutation(st.at(0), nq);
    const auto t = circ::permutation(st.at(1), nq);
    const u64 miss = st.at(2) % 3 == 0 ? st.at(2) >> 8 : 0;
    qc::Permutation from;
    qc::Permutation to;
    for (std::size_t i = 0; i < nq; i++) {
      from[static_cast<qc::Qubit>(i)] = static_cast<qc::Qubit>(f[i]);
      if (((miss >> i) & 1U) == 0) {
        to[static_cast<qc::Qubit>(i)] = static_cast<qc::Qubit>(t[i]);
      }
    }
    const auto was = from;
    const u64 how = st.at(3) % 3;
    const std::size_t d = std::size_t{1} << nq;
    // where a basis state goes once the levels are exchanged
    auto moved = [&](std::size_t x) {
      std::size_t y = 0;
      for (const auto& [i, l] : was) {
        if (((x >> l) & 1U) != 0) {
          y |= std::size_t{1} << from.at(i);
        }
      }
      return y;
    };
    auto labels = [&] {
      std::set<qc::Qubit> seen;
      for (const auto& [i, l] : from) {
        const auto g = to.find(i);
        if (l >= nq || !seen.insert(l).second ||
            (g != to.end() && g->second != l)) {
          c.fail(id + "/labels",
                 "changePermutation left qubit %u at level %u of %zu", i, l,
                 nq);
        }
      }
    };
    if (how == 0) {
      const Vec v = randomState(st.at(4));
      auto e = makeState(v);
      const auto x = evalOr(e, nq, "state");
      dd::changePermutation(e, from, to, *P);
      labels();
      Vec want(d);
      for (std::size_t i = 0; i < d; i++) {
        want[moved(i)] = x[i];
      }
      const auto got = evalOr(e, nq, "changePermutation");
      if (!(dn::dist(got, want) < 1e-9)) {
        c.fail(id + "/value:changePermutation", "a state is off by %.3g",
               dn::dist(got, want));
      }
      hv.push_back({e, nq, got, "relabelled state"});
    } else {
      const u64 s = st.at(4);
      auto gate = [&](u64 q) {
        return dd::getDD(*circ::opOf(circ::decode(q, q >> 8, q >> 20, q >> 33,
                                                  nq)),
                         *P);
      };
      auto e = P->multiply(gate(sim::mix(s)), gate(sim::mix(s + 1)));
      P->incRef(e);
      const auto m = evalOr(e, nq, "matrix");
      dd::changePermutation(e, from, to, *P, how == 1);
      labels();
      Mat want(d);
      for (std::size_t i = 0; i < d; i++) {
        for (std::size_t j = 0; j < d; j++) {
          (how == 1 ? want.at(moved(i), j) : want.at(i, moved(j))) =
              m.at(i, j);
        }
      }
      const auto got = evalOr(e, nq, "changePermutation");
      if (!(dn::dist(got.a, want.a) < 1e-9)) {
        c.fail(id + "/value:changePermutation",
               "a matrix multiplied from the %s is off by %.3g",
               how == 1 ? "left" : "right", dn::dist(got.a, want.a));
      }
      hm.push_back({e, nq, got, "relabelled matrix"});
    }
    verifyHeld("changePermutation");
    drop(3);
    c.ev("changePermutation %llu", static_cast<unsigned long long>(how));
  }

  void run() {
    open(1 + plan.knob("nq0", 2) % 5);
    Builder b(nq, 0, 0, plan.knob("gap", 0));
    std::vector<std::size_t> in;
    std::vector<std::size_t> out;
    u64 anc = 0;
    u64 garb = 0;
    setup(b, in, out, anc, garb);
    const auto every = plan.knob("often", 0);
    for (const auto& st : plan.steps) {
      if (st.op == "knob") {
        continue;
      }
      c.steps++;
      if (st.op == "g") {
        b.gate(circ::decode(st.at(0), st.at(1), st.at(2), st.at(3), nq),
               st.at(4) % 2 == 0);
      } else if (st.op == "comp") {
        b.closeComp(true);
        b.comp = std::make_unique<qc::CompoundOperation>();
        b.compLeft = 1 + st.at(0) % 5;
      } else if (st.op == "bar") {
        b.barrier();
      } else if (st.op == "gph") {
        const double a = gt::ang(st.at(0));
        b.q.gphase(a);
        b.gphase += a;
      } else if (st.op == "cgph") {
        b.phaseOp(gt::ang(st.at(0)),
                  circ::controlsFrom(st.at(1), nq, st.at(2) % 4));
      } else if (st.op == "opdd") {
        const auto g =
            circ::decode(st.at(0), st.at(1), st.at(2), st.at(3), nq);
        auto matrix = [&](const circ::GateInst& x) {
          const auto r = circ::refOf(x);
          std::vector<std::size_t> t;
          for (auto q : r.targets) {
            t.push_back(in[q]);
          }
          std::vector<std::pair<std::size_t, bool>> k;
          for (auto [q, p] : r.controls) {
            k.emplace_back(in[q], p);
          }
          return dn::embed(r.u, t, k, nq);
        };
        std::unique_ptr<qc::Operation> op = circ::opOf(b.phys.on(g));
        auto want = matrix(g);
        const u64 wrap = st.at(4) % 4;
        if (wrap != 0) { // an operation made of others
          const auto g2 = circ::decode(st.at(5), st.at(6), st.at(4) >> 8,
                                       st.at(4) >> 16, nq);
          auto two = std::make_unique<qc::CompoundOperation>();
          if (wrap == 2) {
            auto in2 = std::make_unique<qc::CompoundOperation>();
            in2->emplace_back(std::move(op));
            two->emplace_back(std::unique_ptr<qc::Operation>(std::move(in2)));
          } else {
            two->emplace_back(std::move(op));
          }
          two->emplace_back(circ::opOf(b.phys.on(g2)));
          op = std::move(two);
          want = dn::mul(matrix(g2), want);
        }
        if ((st.at(4) >> 4) % 3 == 1) { // the operation a condition guards
          op = std::make_unique<qc::ClassicControlledOperation>(std::move(op), qc::Bit{0});
        }
        const auto m = dd::getDD(*op, *P, b.q.initialLayout);
        const auto i = dd::getInverseDD(*op, *P, b.q.initialLayout);
        const auto dm = dn::dist(evalOr(m, nq, "getDD").a, want.a);
        const auto di =
            dn::dist(evalOr(i, nq, "getInverseDD").a, dn::dagger(want).a);
        if (!(dm < 1e-9)) {
          c.fail(id + "/value:getDD", "getDD of %s (form %llu) is off by %.3g",
                 g.text().c_str(), static_cast<unsigned long long>(st.at(4)),
                 dm);
        }
        if (!(di < 1e-9)) {
          c.fail(id + "/value:getInverseDD",
                 "getInverseDD of %s (form %llu) is off by %.3g",
                 g.text().c_str(), static_cast<unsigned long long>(st.at(4)),
                 di);
        }
        c.ev("getDD %s", g.text().c_str());
      } else if (st.op == "perm") {
        relabel(st);
      } else if (st.op == "churn") {
        churn(st.at(0));
      } else if (st.op == "gc") {
        gc();
        verifyHeld("a collection");
      } else if (st.op == "exec") {
        exec(b, st, in, out, anc, garb);
      }
      if (every != 0) {
        gc();
      }
    }
    drop(0);
    onlyHeld("releasing everything");
    c.nontrivial = execs > 0 && b.q.size() > 2;
    b.closeComp(true);
  }
};
void run15(const Plan& p, Ctx& c) {
  wide::isWide(p) ? wide::run(p, c, "P15") : S15(c, p, "P15").run();
}

Plan gen15(u64 seed) {
  if (wide::pick(seed, 10)) {
    return wide::gen(seed, "P15");
  }
  Rng r(seed);
  Plan p;
  p.prop = "P15";
  auto knob = [&](const char* n, u64 v) { p.add("knob", {v}, n); };
  knob("layout", r.next() >> 32);
  knob("cfg0", r.below(10) == 0 ? 0 : r.next() >> 40);
  knob("gclim0", r.below(3) == 0 ? 0 : r.next() >> 40);
  knob("nq0", r.below(10) < 7 ? 1 + r.below(3) : r.below(5));
  knob("gap", r.chance(0.12) ? 1 + (r.next() >> 40) : 0);
  knob("lay", r.below(2) == 0 ? 0 : r.next() >> 30);
  knob("out", r.below(2) == 0 ? 0 : r.next() >> 30);
  knob("anc", r.chance(0.3) ? r.below(32) : 0);
  knob("garb", r.chance(0.3) ? r.below(32) : 0);
  knob("often", r.chance(0.1) ? 1 : 0);
  const bool comps = r.chance(0.4);
  const bool phases = r.chance(0.3);
  const bool fewTypes = r.chance(0.3);
  std::vector<u64> types;
  for (int i = 0; i < 3; i++) {
    types.push_back(r.below(32));
  }
  u64 n = r.chance(0.15) ? r.below(4) : 3 + r.below(r.chance(0.2) ? 40 : 14);
  auto gate = [&](const char* op) {
    p.add(op, {fewTypes ? r.pick(types) : r.below(32), r.next() >> 40,
               r.next() >> 30, r.next() >> 40, r.below(2)});
  };
  for (u64 i = 0; i < n; i++) {
    const double x = r.unit();
    if (x < 0.72) {
      gate("g");
    } else if (x < 0.76 && comps) {
      p.add("comp", {r.below(5)});
    } else if (x < 0.78) {
      p.add("bar");
    } else if (x < 0.81 && phases) {
      p.add("gph", {r.next() >> 40});
    } else if (x < 0.84 && phases) {
      p.add("cgph", {r.next() >> 40, r.next() >> 8, r.below(4)});
    } else if (x < 0.88) {
      p.add("opdd", {fewTypes ? r.pick(types) : r.below(32), r.next() >> 40,
                     r.next() >> 30, r.next() >> 40, r.next() >> 20,
                     r.below(32), r.next() >> 40});
    } else if (x < 0.90) {
      p.add("perm", {r.next() >> 40, r.next() >> 40, r.next() >> 40,
                     r.below(3), r.next() >> 30});
    } else if (x < 0.92) {
      p.add("churn", {r.next() >> 40});
    } else if (x < 0.94) {
      p.add("gc");
    } else {
      p.add("exec", {r.below(3), r.next(), r.below(16)});
    }
  }
  for (u64 i = 0; i < 1 + r.below(3); i++) {
    p.add("exec", {r.below(3), r.next(), r.below(16)});
    if (r.chance(0.5)) {
      p.add("churn", {r.next() >> 40});
    }
  }
  return p;
}
const Register r15("P15", gen15, run15, 60);
} // namespace
