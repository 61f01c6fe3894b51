// Jobs: small programs over the library's public API, each a deterministic
// function of its numbers. Used to compare executions with each other.
#pragma once
#include "circbuild.hpp"
#include "ddutil.hpp"

#include "algorithms/BernsteinVazirani.hpp"
#include "algorithms/GHZState.hpp"
#include "algorithms/Grover.hpp"
#include "algorithms/QFT.hpp"
#include "algorithms/QPE.hpp"
#include "algorithms/RandomCliffordCircuit.hpp"
#include "algorithms/StatePreparation.hpp"
#include "algorithms/WState.hpp"
#include "circuit_optimizer/CircuitOptimizer.hpp"
#include "datastructures/Layer.hpp"
#include "dd/Export.hpp"
#include "dd/FunctionalityConstruction.hpp"
#include "dd/NoiseFunctionality.hpp"
#include "dd/Operations.hpp"
#include "dd/Package.hpp"
#include "dd/Simulation.hpp"
#include "ir/operations/SymbolicOperation.hpp"
#include "na/NAComputation.hpp"
#include "na/operations/GlobalCZOp.hpp"
#include "na/operations/GlobalRYOp.hpp"
#include "na/operations/LoadOp.hpp"
#include "na/operations/LocalRZOp.hpp"
#include "na/operations/LocalUOp.hpp"
#include "na/operations/MoveOp.hpp"
#include "na/operations/StoreOp.hpp"
#include "qasm3/Importer.hpp"
#include "zx/FunctionalityConstruction.hpp"
#include "zx/Simplify.hpp"

#include <memory>
#include <sstream>

namespace jobs {
using sim::fmt;
using sim::mix;
using sim::Rng;
using sim::Step;
using sim::u64;

struct Out {
  std::string label;
  bool exact = true; // numbers compared exactly
  std::string text;
};
// what a job leaves behind on purpose
struct Env {
  std::vector<Out> out;
  std::vector<std::shared_ptr<void>> kept;
  bool keep = false;           // keep circuits and diagrams alive
  bool hasShared = false; // in any world (sizes depend on earlier roundings)
  dd::Package* shared = nullptr; // package shared between jobs
  std::ostream* stream = nullptr; // output stream shared between jobs
  void put(const char* l, bool exact, std::string t) {
    out.push_back({l, exact, std::move(t)});
  }
  // text printed by f to a fresh or shared stream
  template <class F> void print(const char* l, bool exact, F f) {
    if (stream != nullptr) {
      auto& ss = static_cast<std::ostringstream&>(*stream);
      ss.str("");
      ss.width(0);
      ss.clear(); // a failed allocation may have left it bad
      try {
        f(ss);
      } catch (...) { // what is left of an aborted print is unspecified
        ss.copyfmt(std::ios(nullptr));
        throw;
      }
      put(l, exact, ss.str());
    } else {
      std::ostringstream ss;
      f(ss);
      put(l, exact, ss.str());
    }
  }
};

constexpr u64 NKINDS = 17;
inline const char* kindName(u64 k) {
  static const char* n[] = {
      "generator", "circuit", "sample",  "sample-generator", "noise", "values",
      "dot",       "layer",   "zx",      "symbolic",         "qasm",  "na",
      "measure",   "optimise", "density", "serialize",        "stateprep"};
  return n[k % NKINDS];
}

inline qc::QuantumComputation generator(u64 which, u64 nqr, u64 seed) {
  const auto nq = static_cast<qc::Qubit>(1 + nqr % 5);
  switch (which % 13) {
  case 0:
    return qc::createBernsteinVazirani(static_cast<qc::Qubit>(1 + nqr % 40),
                                       seed);
  case 1:
    return qc::createIterativeBernsteinVazirani(
        static_cast<qc::Qubit>(1 + nqr % 40), seed);
  case 2:
    return qc::createGrover(static_cast<qc::Qubit>(2 + nqr % 4), seed);
  case 3:
    return qc::createQPE(nq, true, seed);
  case 4:
    return qc::createQPE(nq, false, seed);
  case 5:
    return qc::createIterativeQPE(nq, true, seed);
  case 6:
    return qc::createIterativeQPE(nq, false, seed);
  case 7:
  case 8:
    return qc::createRandomCliffordCircuit(nq, 1 + (nqr >> 8) % 6, seed);
  case 9:
    return qc::createQFT(nq, (nqr >> 8) % 2 == 0);
  case 10:
    return qc::createIterativeQFT(nq);
  case 11:
    return qc::createGHZState(nq);
  default:
    return qc::createWState(nq);
  }
}

struct Opt {
  bool measure = true;   // measurements, resets, conditions
  bool compound = true;  // compound operations
  bool symbolic = false;
  unsigned maxControls = 2;
  const std::vector<int>* allowed = nullptr;
};
inline std::unique_ptr<qc::QuantumComputation>
circuit(u64 seed, std::size_t nq, std::size_t len, const Opt& o,
        u64 rngSeed = 0) {
  Rng r(seed);
  const std::size_t nc = o.measure ? 1 + r.below(3) : 0;
  auto q = std::make_unique<qc::QuantumComputation>(nq, nc, rngSeed);
  if (r.chance(0.2)) {
    q->addAncillaryRegister(1);
  }
  if (r.chance(0.3)) {
    q->gphase(gt::ang(r.next()));
  }
  std::vector<sym::Variable> vars;
  if (o.symbolic) {
    const auto first = r.below(6);
    for (u64 i = 0; i < 3; i++) {
      vars.emplace_back(fmt("v%c", static_cast<int>('a' + (first * 5 + i * 7) % 11)));
    }
  }
  auto gate = [&] {
    return circ::decode(r.below(32), r.next() >> 40, r.next() >> 30,
                        r.next() >> 40, nq, o.maxControls, o.allowed);
  };
  for (std::size_t i = 0; i < len; i++) {
    const double x = r.unit();
    if (o.measure && x < 0.08) {
      q->measure(static_cast<qc::Qubit>(r.below(nq)), r.below(nc));
    } else if (o.measure && x < 0.12) {
      q->reset(static_cast<qc::Qubit>(r.below(nq)));
    } else if (o.measure && x < 0.2) {
      auto g = gate();
      q->emplace_back<qc::ClassicControlledOperation>(
          circ::opOf(g), static_cast<qc::Bit>(r.below(nc)), r.below(2));
    } else if (x < 0.24) {
      q->barrier();
    } else if (o.compound && x < 0.3) {
      auto c = std::make_unique<qc::CompoundOperation>();
      for (u64 k = 0, n = 1 + r.below(3); k < n; k++) {
        c->emplace_back(circ::opOf(gate()));
      }
      q->emplace_back(std::unique_ptr<qc::Operation>(std::move(c)));
    } else if (o.symbolic && x < 0.7) {
      qc::Symbolic e(gt::ang(r.next()) * (r.chance(0.5) ? 1. : 0.));
      for (u64 k = 0, n = 1 + r.below(3); k < n; k++) {
        e += sym::Term<qc::fp>(vars[r.below(3)],
                               static_cast<double>(r.below(7)) - 3.);
      }
      const auto t = static_cast<qc::Qubit>(r.below(nq));
      switch (r.below(4)) {
      case 0:
        q->rx(e, t);
        break;
      case 1:
        q->p(e, t);
        break;
      case 2:
        q->u2(e, 0.25, t);
        break;
      default:
        q->rz(e, t);
      }
    } else {
      q->emplace_back(circ::opOf(gate()));
    }
  }
  return q;
}

inline void text(Env& v, const qc::QuantumComputation& q, const char* what) {
  v.print((std::string(what) + ":print").c_str(), true,
          [&](std::ostream& os) { os << q; });
}
inline void dump(Env& v, const qc::QuantumComputation& q, const char* what,
                 bool v3) {
  v.print((std::string(what) + ":qasm").c_str(), true,
          [&](std::ostream& os) { q.dumpOpenQASM(os, v3); });
}
inline std::string histogram(const std::map<std::string, std::size_t>& h) {
  std::string s;
  for (const auto& [k, n] : h) {
    s += k + "=" + std::to_string(n) + "\n";
  }
  return s;
}
inline std::string vec(const dn::Vec& v) {
  std::string s;
  for (const auto& a : v) {
    s += fmt("%.17g,%.17g\n", a.real() + 0., a.imag() + 0.);
  }
  return s;
}
// node names replaced by the order of their first appearance
inline std::string renumber(const std::string& t) {
  std::map<std::string, std::size_t> ids;
  std::string o;
  std::size_t i = 0;
  auto name = [&] {
    std::size_t j = i;
    while (j < t.size() && t[j] >= '0' && t[j] <= '9') {
      j++;
    }
    if (j > i && j < t.size() && (t[j] == '[' || t[j] == ':')) {
      o += fmt("n%zu", ids.emplace(t.substr(i, j - i), ids.size()).first->second);
      i = j;
    }
  };
  bool start = true;
  while (i < t.size()) {
    if (start) {
      name();
      start = false;
      if (i >= t.size()) {
        break;
      }
    }
    if (t[i] == '\n') {
      start = true;
    }
    if (t.compare(i, 2, "->") == 0) {
      o += "->";
      i += 2;
      name();
      continue;
    }
    o += t[i++];
  }
  return o;
}
// every node name in a DOT text belongs to one node statement
inline std::string dotDefect(const std::string& t) {
  std::map<std::string, int> def;
  std::istringstream is(t);
  std::string l;
  while (std::getline(is, l)) {
    const auto k = l.find_first_not_of("0123456789");
    if (k != std::string::npos && k > 0 && l[k] == '[') {
      if (++def[l.substr(0, k)] > 1) {
        return "two nodes share the name " + l.substr(0, k);
      }
    }
  }
  return "";
}

inline dd::Package& package(Env& v, std::size_t nq, u64 cfg,
                            std::unique_ptr<dd::Package>& own) {
  if (v.shared != nullptr) {
    v.shared->resize(std::max(v.shared->qubits(), nq));
    return *v.shared;
  }
  auto c = ddu::configFrom(cfg);
  c.stochasticCacheOps =
      dd::STOCHASTIC_NOISE_SIMULATOR_DD_PACKAGE_CONFIG.stochasticCacheOps;
  own = std::make_unique<dd::Package>(nq, c);
  return *own;
}

// runs one job; x: kind, then its numbers
inline void run(const Step& st, Env& v) {
  const u64 kind = st.at(0) % NKINDS;
  const u64 a = st.at(1);
  const u64 b = st.at(2);
  const u64 seed = st.at(3);
  Rng r(mix(a) ^ b);
  const std::size_t nq = 1 + b % 4;
  const std::size_t len = 1 + (b >> 8) % 9;
  auto hold = [&](auto p) {
    if (v.keep) {
      v.kept.push_back(std::shared_ptr<void>(std::move(p)));
    }
  };
  Opt o;
  switch (kind) {
  case 0: {
    auto q = std::make_unique<qc::QuantumComputation>(generator(a, b, seed));
    text(v, *q, "generator");
    dump(v, *q, "generator", (a >> 16) % 2 == 0);
    hold(std::move(q));
    break;
  }
  case 1: {
    auto q = circuit(a, nq, len, o, seed);
    text(v, *q, "circuit");
    dump(v, *q, "circuit", (a >> 16) % 2 == 0);
    v.print("statistics", true,
            [&](std::ostream& os) { q->printStatistics(os); });
    hold(std::move(q));
    break;
  }
  case 2:
  case 3: {
    o.compound = (b >> 20) % 2 == 0;
    auto q = kind == 2 ? circuit(a, nq, len, o, mix(a) | 1)
                       : std::make_unique<qc::QuantumComputation>(
                             generator(a, b & ~u64{0x30}, a | 1));
    if (q->getNqubits() > 7) {
      break;
    }
    if (kind == 3 && (b >> 21) % 2 == 0 && q->getNcbits() == 0) {
      q->measureAll();
    }
    const std::size_t shots = 1 + (b >> 12) % 24;
    if ((b >> 22) % 2 == 0 && v.shared == nullptr) {
      v.put("histogram", true, histogram(dd::sample(*q, shots, seed)));
    } else {
      std::unique_ptr<dd::Package> own;
      auto& p = package(v, q->getNqubits(), b, own);
      v.put("histogram", true,
            histogram(dd::sample(*q, p.makeZeroState(q->getNqubits()), p, shots,
                                 seed)));
    }
    hold(std::move(q));
    break;
  }
  case 4: {
    std::unique_ptr<dd::Package> own;
    auto& p = package(v, nq, b, own);
    static const char* effects[] = {"A", "P", "D", "AP", "APD", "I"};
    dd::StochasticNoiseFunctionality f(
        p, nq, 0.02 + 0.1 * static_cast<double>(r.below(8)),
        0.02 + 0.1 * static_cast<double>(r.below(8)), 1. + 0.1 * static_cast<double>(r.below(3)),
        effects[r.below(6)]);
    std::mt19937_64 mt(seed);
    for (u64 s = 0, n = 1 + r.below(3); s < n; s++) {
      auto e = p.makeZeroState(nq);
      for (std::size_t i = 0; i < len; i++) {
        const auto g = circ::decode(mix(a + i), mix(a + i * 3) >> 30,
                                    mix(a + i * 5) >> 20, mix(a + i * 7) >> 30, nq, 2);
        std::set<qc::Qubit> used(g.targets.begin(), g.targets.end());
        for (const auto& c : g.controls) {
          used.insert(c.qubit);
        }
        f.applyNoiseOperation(used, dd::getDD(*circ::opOf(g), p), e, mt);
      }
      v.put("noisy state", false, vec(ddu::eval(e, nq)));
      p.decRef(e);
    }
    break;
  }
  case 5: {
    o.measure = false;
    auto q = circuit(a, nq, len, o, seed);
    const auto n = q->getNqubits();
    std::unique_ptr<dd::Package> own;
    auto& p = package(v, n, b, own);
    if ((b >> 20) % 2 == 0) {
      const auto e = dd::simulate(*q, p.makeZeroState(n), p);
      v.put("state", false, vec(ddu::eval(e, n)));
      v.put("size", true, std::to_string(v.hasShared ? 0 : e.size()));
      p.decRef(e);
    } else {
      const auto e = (b >> 21) % 2 == 0
                         ? dd::buildFunctionality(*q, p)
                         : dd::buildFunctionalityRecursive(*q, p);
      v.put("unitary", false, vec(ddu::eval(e, n).a));
      v.put("size", true, std::to_string(v.hasShared ? 0 : e.size()));
      p.decRef(e);
    }
    hold(std::move(q));
    break;
  }
  case 6:
  case 15: {
    o.measure = false;
    auto q = circuit(a, nq + 1, len + 3, o, seed);
    const auto n = q->getNqubits();
    std::unique_ptr<dd::Package> own;
    auto cfg = dd::DDPackageConfig{};
    if ((b >> 24) % 2 == 0) { // nodes in many small blocks
      cfg.utVecInitialAllocationSize = 8;
      cfg.utMatInitialAllocationSize = 8;
    }
    own = std::make_unique<dd::Package>(n, cfg);
    auto& p = *own;
    auto go = [&](const auto& e) {
      if (kind == 6) {
        std::ostringstream ss;
        dd::toDot(e, ss, (b >> 20) % 2 == 0, (b >> 21) % 2 == 0,
                  (b >> 22) % 2 == 0, false, (b >> 23) % 2 == 0);
        const auto d = dotDefect(ss.str());
        v.put("dot", false, d.empty() ? renumber(ss.str()) : "defect " + d);
        v.print("weights", false,
                [&](std::ostream& os) { dd::exportEdgeWeights(e, os); });
      } else {
        v.print("serialized", false,
                [&](std::ostream& os) { dd::serialize(e, os, false); });
        std::ostringstream ss;
        dd::serialize(e, ss, true);
        v.put("binary size", true, std::to_string(ss.str().size()));
      }
      p.decRef(e);
    };
    if ((b >> 25) % 2 == 0) {
      go(dd::simulate(*q, p.makeZeroState(n), p));
    } else {
      go(dd::buildFunctionality(*q, p));
    }
    break;
  }
  case 7: {
    o.measure = false;
    o.compound = false;
    o.maxControls = 1;
    auto q = circuit(a, nq + 1, len + 2, o, seed);
    qc::Layer l(*q, (b >> 20) % 2 == 0);
    u64 pick = b;
    for (std::size_t round = 0; round < 12; round++) {
      std::string s;
      for (const auto t : {qc::H, qc::X, qc::Z, qc::RZ, qc::P, qc::SWAP}) {
        for (std::size_t nc = 0; nc < 2; nc++) {
          const auto ex = l.getExecutablesOfType(t, nc);
          for (const auto& x : ex) {
            for (std::size_t i = 0; i < q->size(); i++) {
              if (q->at(i).get() == x->getOperation()) {
                s += fmt("%zu ", i);
              }
            }
          }
          if (t == qc::Z && nc == 1) {
            try {
              s += l.constructInteractionGraph(t, nc).toString();
            } catch (const std::bad_alloc&) {
              throw;
            } catch (const std::exception&) {
              s += "no graph";
            }
          }
        }
      }
      v.put("executables", true, s);
      // execute the first one in program order
      std::shared_ptr<qc::Layer::DAGVertex> first;
      std::size_t at = ~std::size_t{0};
      pick = mix(pick);
      const auto off = pick % (q->size() + 1);
      for (const auto& x : l.getExecutableSet()) {
        for (std::size_t i = 0; i < q->size(); i++) {
          const auto pos = (i + off) % q->size();
          if (q->at(i).get() == x->getOperation() && pos < at) {
            at = pos;
            first = x;
          }
        }
      }
      if (!first) {
        break;
      }
      first->execute();
    }
    hold(std::move(q));
    break;
  }
  case 8: {
    o.measure = false;
    static const std::vector<int> cliffT = {1, 2, 3, 4, 5, 6, 7, 8};
    o.allowed = &cliffT;
    o.maxControls = 1;
    auto q = circuit(a, nq, len, o, seed);
    if (!zx::FunctionalityConstruction::transformableToZX(q.get())) {
      v.put("zx", true, "not transformable");
      break;
    }
    auto d = zx::FunctionalityConstruction::buildFunctionality(q.get());
    if ((b >> 20) % 4 != 0) {
      zx::fullReduce(d);
    } else {
      zx::cliffordSimp(d);
    }
    std::ostringstream ss;
    for (const auto& [x, data] : d.getVertices()) {
      ss << x << " " << data.phase << " " << static_cast<int>(data.type)
         << "\n";
    }
    for (const auto& [x, y] : d.getEdges()) {
      ss << x << "-" << y << " " << static_cast<int>(d.getEdge(x, y)->type)
         << "\n";
    }
    ss << d.getGlobalPhase() << "\n";
    v.put("zx", false, ss.str());
    break;
  }
  case 9: {
    o.symbolic = true;
    o.measure = false;
    auto q = circuit(a, nq, len + 2, o, seed);
    std::string s;
    for (const auto& op : *q) {
      if (const auto* so =
              dynamic_cast<const qc::SymbolicOperation*>(op.get())) {
        for (const auto& p : so->getParameters()) {
          std::ostringstream ss;
          if (std::holds_alternative<qc::Symbolic>(p)) {
            ss << std::get<qc::Symbolic>(p);
          } else {
            ss << std::get<qc::fp>(p);
          }
          s += ss.str() + "\n";
        }
      }
    }
    v.put("expressions", true, s);
    text(v, *q, "symbolic");
    qc::VariableAssignment as;
    for (int i = 0; i < 11; i++) {
      as[sym::Variable(fmt("v%c", 'a' + i))] = 0.125 * i - 0.3;
    }
    const auto c = q->instantiate(as);
    dump(v, c, "instantiated", true);
    hold(std::move(q));
    break;
  }
  case 10: {
    auto q = circuit(a, nq, len, o, seed);
    const auto t = q->toQASM((b >> 20) % 2 == 0);
    try {
      auto p = std::make_unique<qc::QuantumComputation>(
          qasm3::Importer::imports((b >> 21) % 4 == 0
                                       ? t.substr(0, mix(b) % (t.size() + 1))
                                       : t));
      text(v, *p, "imported");
      dump(v, *p, "imported", true);
      hold(std::move(p));
    } catch (const std::bad_alloc&) {
      throw;
    } catch (const std::exception& e) {
      v.put("import", true, std::string("refused: ") + e.what());
    }
    break;
  }
  case 11: {
    auto n = std::make_unique<na::NAComputation>();
    std::vector<const na::Atom*> at;
    for (u64 i = 0, k = 1 + r.below(5); i < k; i++) {
      at.push_back(&n->emplaceBackAtom(fmt("atom%llu", (unsigned long long)i)));
      n->emplaceInitialLocation(
          *at.back(), static_cast<double>(r.below(8)),
          static_cast<double>((b >> 20) % 3 == 0 ? r.below(2) : i));
    }
    const auto& zone = n->emplaceBackZone("zone");
    for (std::size_t i = 0; i < len; i++) {
      std::vector<const na::Atom*> some;
      std::vector<na::Location> to;
      for (const auto* x : at) {
        if (r.chance(0.6)) {
          some.push_back(x);
          to.push_back({static_cast<double>(r.below(9)),
                        static_cast<double>(r.below(9))});
        }
      }
      if (some.empty()) {
        some.push_back(at[0]);
        to.push_back({1, 2});
      }
      switch (r.below(6)) {
      case 0:
        n->emplaceBack<na::LoadOp>(some);
        break;
      case 1:
        n->emplaceBack<na::StoreOp>(some, to);
        break;
      case 2:
        n->emplaceBack<na::MoveOp>(some, to);
        break;
      case 3:
        n->emplaceBack<na::LocalRZOp>(some, gt::ang(r.next()));
        break;
      case 4:
        n->emplaceBack<na::LocalUOp>(some, 0.5, gt::ang(r.next()), 0.25);
        break;
      default:
        n->emplaceBack<na::GlobalCZOp>(zone);
      }
    }
    v.put("na", true, n->toString());
    const auto [ok, why] = n->validate();
    v.put("na valid", true, (ok ? "yes " : "no ") + why);
    hold(std::move(n));
    break;
  }
  case 12: {
    std::unique_ptr<dd::Package> own;
    auto& p = package(v, nq, b, own);
    o.measure = false;
    auto q = circuit(a, nq, len, o, 1);
    const auto n = q->getNqubits();
    if (n > p.qubits()) {
      p.resize(n);
    }
    auto e = dd::simulate(*q, p.makeZeroState(n), p);
    std::mt19937_64 mt(seed);
    std::string s;
    for (int i = 0; i < 6; i++) {
      s += p.measureAll(e, false, mt) + "\n";
    }
    for (std::size_t k = 0; k < n; k++) {
      s += p.measureOneCollapsing(
          e, static_cast<dd::Qubit>(mix(b + k) % n), mt);
    }
    s += p.measureAll(e, true, mt) + "\n";
    v.put("outcomes", true, s);
    v.put("collapsed", false, vec(ddu::eval(e, n)));
    p.decRef(e);
    break;
  }
  case 13: {
    o.measure = (b >> 20) % 2 == 0;
    o.compound = (b >> 21) % 2 == 0;
    auto q = circuit(a, nq + 1, len + 3, o, seed);
    for (u64 k = 0, m = 1 + r.below(3); k < m; k++) {
      try {
        switch (r.below(12)) {
        case 0:
          qc::CircuitOptimizer::swapReconstruction(*q);
          break;
        case 1:
          qc::CircuitOptimizer::singleQubitGateFusion(*q);
          break;
        case 2:
          qc::CircuitOptimizer::removeIdentities(*q);
          break;
        case 3:
          qc::CircuitOptimizer::cancelCNOTs(*q);
          break;
        case 4:
          qc::CircuitOptimizer::flattenOperations(*q);
          break;
        case 5:
          qc::CircuitOptimizer::collectBlocks(*q, 1 + r.below(4));
          break;
        case 6:
          qc::CircuitOptimizer::elidePermutations(*q);
          break;
        case 7:
          qc::CircuitOptimizer::backpropagateOutputPermutation(*q);
          break;
        case 8:
          qc::CircuitOptimizer::deferMeasurements(*q);
          break;
        case 9:
          qc::CircuitOptimizer::eliminateResets(*q);
          break;
        case 10:
          q->reorderOperations();
          break;
        default: // not made for compound or conditional operations
          if (!o.measure && !o.compound) {
            qc::CircuitOptimizer::removeDiagonalGatesBeforeMeasure(*q);
          }
        }
      } catch (const std::bad_alloc&) {
        throw;
      } catch (const std::exception& e) {
        v.put("optimiser", true, std::string("refused: ") + e.what());
        break;
      }
    }
    text(v, *q, "optimised");
    hold(std::move(q));
    break;
  }
  case 14: {
    const std::size_t n = 1 + b % 3;
    std::unique_ptr<dd::Package> own = std::make_unique<dd::Package>(
        n, dd::DENSITY_MATRIX_SIMULATOR_DD_PACKAGE_CONFIG);
    auto& p = *own;
    auto e = p.makeZeroDensityOperator(n);
    dd::DeterministicNoiseFunctionality f(p, n, 0.05, 0.1, 0.02, 0.04, "APD");
    std::mt19937_64 mt(seed);
    std::string s;
    for (std::size_t i = 0; i < len && i < 5; i++) {
      const auto g = circ::decode(mix(a + i), mix(a + i * 3) >> 30,
                                  mix(a + i * 5) >> 20, mix(a + i * 7) >> 30, n, 1);
      const auto op = circ::opOf(g);
      p.applyOperationToDensity(e, dd::getDD(*op, p));
      std::set<qc::Qubit> used(g.targets.begin(), g.targets.end());
      f.applyNoiseEffects(e, op);
      if (mix(b + i) % 3 == 0) {
        s += p.measureOneCollapsing(e, static_cast<dd::Qubit>(mix(a + i) % n),
                                    mt);
      }
    }
    v.put("outcomes", true, s);
    v.put("density", false, vec(ddu::eval(e, n).a));
    break;
  }
  default: {
    std::vector<std::complex<double>> amp(std::size_t{1} << nq);
    double n2 = 0;
    for (auto& x : amp) {
      x = r.chance(0.2) ? std::complex<double>(0)
                        : std::complex<double>(r.unit() - 0.5, r.unit() - 0.5);
      n2 += std::norm(x);
    }
    if (n2 == 0) {
      amp[0] = 1;
      n2 = 1;
    }
    for (auto& x : amp) {
      x /= std::sqrt(n2);
    }
    auto q = std::make_unique<qc::QuantumComputation>(
        qc::createStatePreparationCircuit(amp));
    text(v, *q, "stateprep");
    hold(std::move(q));
  }
  }
}

// equal texts; with loose numbers, numerals containing a point or exponent may
// differ in the last digits
inline bool same(const Out& x, const Out& y, std::string& where) {
  const auto& s = x.text;
  const auto& t = y.text;
  std::size_t i = 0;
  std::size_t j = 0;
  auto isnum = [](const std::string& u, std::size_t k) {
    if (k < u.size() && (u[k] == '-' || u[k] == '+')) {
      k++;
    }
    return k < u.size() && (std::isdigit(static_cast<unsigned char>(u[k])) != 0);
  };
  while (i < s.size() || j < t.size()) {
    if (!x.exact && isnum(s, i) && isnum(t, j)) {
      char* es = nullptr;
      char* et = nullptr;
      const double p = std::strtod(s.c_str() + i, &es);
      const double q = std::strtod(t.c_str() + j, &et);
      if (std::abs(p - q) > 1e-8 * std::max(1., std::abs(p))) {
        break;
      }
      i = static_cast<std::size_t>(es - s.c_str());
      j = static_cast<std::size_t>(et - t.c_str());
      continue;
    }
    if (i >= s.size() || j >= t.size() || s[i] != t[j]) {
      break;
    }
    i++;
    j++;
  }
  if (i >= s.size() && j >= t.size()) {
    return true;
  }
  auto cut = [](const std::string& u, std::size_t k) {
    return u.substr(k > 30 ? k - 30 : 0, 70);
  };
  where = "'" + cut(s, i) + "' versus '" + cut(t, j) + "'";
  return false;
}
} // namespace jobs
