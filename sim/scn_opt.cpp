// P17: histories of optimization passes, edits and failing allocations on
// (dynamic) circuits; the meaning of the circuit is evaluated exactly before
// and after every pass.
#include "circbuild.hpp"
#include "qcref.hpp"

#include "circuit_optimizer/CircuitOptimizer.hpp"

#include <algorithm>
#include <set>

namespace {
using namespace sim;
using circ::Builder;
using circ::Ref;
using dn::cplx;
using dn::Mat;
using dn::Vec;
using QC = qc::QuantumComputation;
using CO = qc::CircuitOptimizer;

enum Pass : u64 {
  IDENT,
  REMOVE,
  SWAPREC,
  FUSE,
  DIAG,
  FINAL,
  DECSWAP,
  RESETS,
  DEFER,
  FLAT,
  CANCEL,
  MCX,
  BACK,
  BLOCKS,
  ELIDE,
  REORDER,
  NPASS
};
const char* const NAME[] = {
    "removeIdentities",   "removeOperation",
    "swapReconstruction", "singleQubitGateFusion",
    "removeDiagonalGatesBeforeMeasure", "removeFinalMeasurements",
    "decomposeSWAP",      "eliminateResets",
    "deferMeasurements",  "flattenOperations",
    "cancelCNOTs",        "replaceMCXWithMCZ",
    "backpropagateOutputPermutation",   "collectBlocks",
    "elidePermutations",  "reorderOperations"};

// what a circuit does to one input
struct Effect {
  bool known = false;
  bool pure = false; // no measurements, nothing traced out
  Vec v;
  std::map<u64, Mat> rho; // per value of the classical bits
};
using Pos = std::vector<std::size_t>;

bool unitary(const std::vector<Ref>& rs) {
  return std::none_of(rs.begin(), rs.end(), [](const Ref& r) {
    return r.kind == Ref::MEAS || r.kind == Ref::RESET || r.cond;
  });
}
bool diagonalAt(const Ref& r, std::size_t q) {
  for (std::size_t k = 0; k < r.targets.size(); k++) {
    if (r.targets[k] != q) {
      continue;
    }
    const std::size_t m = std::size_t{1} << (r.targets.size() - 1 - k);
    for (std::size_t a = 0; a < r.u.d; a++) {
      for (std::size_t b = 0; b < r.u.d; b++) {
        if ((a & m) != (b & m) && std::abs(r.u.at(a, b)) > 1e-12) {
          return false;
        }
      }
    }
  }
  return true;
}
bool touches(const Ref& r, std::size_t q) {
  for (const auto t : r.targets) {
    if (t == q) {
      return true;
    }
  }
  for (const auto& [x, pol] : r.controls) {
    if (x == q) {
      return true;
    }
  }
  return false;
}

struct S17 {
  Ctx& c;
  const Plan& plan;
  const std::string id = "P17";
  std::size_t nq;
  Builder b;
  u64 bits = 0;
  u64 passes = 0;
  u64 changed = 0;
  u64 failAt = 0;
  u64 strict = 0; // judge what the existing tests pin, too
  std::size_t compDepth = 0;
  std::vector<std::pair<std::size_t, std::size_t>> regs;

  S17(Ctx& ctx, const Plan& p)
      : c(ctx), plan(p), nq(1 + p.knob("nq", 2) % 4),
        b(nq, 0, 0, p.knob("gap", 0)) {}

  // ------------------------------------------------------------ semantics
  // physical qubits in order
  static std::vector<qc::Qubit> wires(const QC& q) {
    std::vector<qc::Qubit> w;
    for (const auto& [p, l] : q.initialLayout) {
      w.push_back(p);
    }
    std::sort(w.begin(), w.end());
    return w;
  }
  static Pos physical(const QC& q) {
    Pos p(q.getHighestPhysicalQubitIndex() + 1, 0);
    std::size_t k = 0;
    for (const auto w : wires(q)) {
      p.at(w) = k++;
    }
    return p;
  }
  static Pos logical(const QC& q) {
    Pos p(q.getHighestPhysicalQubitIndex() + 1, 0);
    for (const auto& [w, l] : q.initialLayout) {
      p.at(w) = l;
    }
    return p;
  }
  // state of the positions `keep` (in that order) after running `rs`
  static Effect effect(const std::vector<Ref>& rs, const Pos& pos,
                       std::size_t n, std::size_t inputs, const Pos& keep,
                       u64 seed) {
    Effect e;
    Rng r(seed);
    Vec v(std::size_t{1} << n, 0);
    double norm = 0;
    for (std::size_t i = 0; i < (std::size_t{1} << inputs); i++) {
      v[i] = cplx(r.unit() - 0.5, r.unit() - 0.5);
      norm += std::norm(v[i]);
    }
    for (auto& x : v) {
      x /= std::sqrt(norm);
    }
    const auto bs = circ::enumerate(rs, v, pos);
    if (bs.empty()) {
      return e;
    }
    e.known = true;
    std::size_t rest = 0;
    std::vector<std::size_t> other;
    for (std::size_t k = 0; k < n; k++) {
      if (std::find(keep.begin(), keep.end(), k) == keep.end()) {
        other.push_back(k);
      }
    }
    rest = std::size_t{1} << other.size();
    const std::size_t d = std::size_t{1} << keep.size();
    auto index = [&](std::size_t k, std::size_t o) {
      std::size_t x = 0;
      for (std::size_t j = 0; j < keep.size(); j++) {
        x |= ((k >> j) & 1U) << keep[j];
      }
      for (std::size_t j = 0; j < other.size(); j++) {
        x |= ((o >> j) & 1U) << other[j];
      }
      return x;
    };
    e.pure = other.empty() && unitary(rs);
    if (e.pure) {
      e.v.resize(d);
      for (std::size_t k = 0; k < d; k++) {
        e.v[k] = bs[0].v[index(k, 0)];
      }
    }
    for (const auto& x : bs) {
      auto& m = e.rho.try_emplace(x.bits, Mat(d)).first->second;
      std::vector<cplx> row(d);
      for (std::size_t o = 0; o < rest; o++) {
        for (std::size_t k = 0; k < d; k++) {
          row[k] = x.v[index(k, o)];
        }
        for (std::size_t k = 0; k < d; k++) {
          if (row[k] != cplx(0)) {
            for (std::size_t l = 0; l < d; l++) {
              m.at(k, l) += x.p * row[k] * std::conj(row[l]);
            }
          }
        }
      }
    }
    return e;
  }
  static double distance(const Effect& a, const Effect& b) {
    double d = 0;
    if (a.pure && b.pure) {
      for (std::size_t i = 0; i < a.v.size(); i++) {
        d = std::max(d, std::abs(a.v[i] - b.v[i]));
      }
    }
    auto side = [&](const Effect& x, const Effect& y) {
      for (const auto& [k, m] : x.rho) {
        const auto it = y.rho.find(k);
        for (std::size_t i = 0; i < m.a.size(); i++) {
          d = std::max(d, std::abs(m.a[i] - (it == y.rho.end()
                                                 ? cplx(0)
                                                 : it->second.a[i])));
        }
      }
    };
    side(a, b);
    side(b, a);
    return d;
  }
  static Pos all(std::size_t n) {
    Pos k(n);
    for (std::size_t i = 0; i < n; i++) {
      k[i] = i;
    }
    return k;
  }
  std::vector<Ref> read(const QC& q, const char* what) {
    try {
      for (const auto& op : q) {
        if (op == nullptr) {
          c.fail(id + "/malformed", "%s left an empty operation", what);
        }
      }
      auto rs = circ::refsOf(q);
      for (auto& r : rs) {
        if (r.kind == Ref::NOP) {
          for (const auto t : r.targets) {
            r.desc += fmt(" %zu", t);
          }
        }
      }
      return rs;
    } catch (const std::exception& e) {
      c.fail(id + "/malformed", "%s left an operation that is none: %s", what,
             e.what());
    }
  }
  void same(const char* what, const char* cls, const std::vector<Ref>& ra,
            const Pos& pa, const std::vector<Ref>& rb, const Pos& pb,
            std::size_t n) {
    for (u64 s = 0; s < 2; s++) {
      const auto x = effect(ra, pa, n, n, all(n), 11 + s);
      const auto y = effect(rb, pb, n, n, all(n), 11 + s);
      if (!x.known || !y.known) {
        c.count("skip.branches");
        return;
      }
      const double d = distance(x, y);
      if (!(d < 1e-8)) {
        c.fail(id + "/" + cls, "%s changed what the circuit does by %.3g%s",
               what, d, dump(ra, rb).c_str());
      }
    }
  }
  static std::string dump(const std::vector<Ref>& ra,
                          const std::vector<Ref>& rb) {
    std::string s = " [";
    for (const auto& r : ra) {
      s += r.desc + "; ";
    }
    s += "] became [";
    for (const auto& r : rb) {
      s += r.desc + "; ";
    }
    return s + "]";
  }
  static bool hasGap(const QC& q) {
    const auto w = wires(q);
    return !w.empty() && w.back() + 1 != w.size();
  }

  // ------------------------------------------------------------ structure
  template <class F>
  static bool anyOp(const qc::Operation& op, F f) {
    if (f(op)) {
      return true;
    }
    if (const auto* x = dynamic_cast<const qc::CompoundOperation*>(&op)) {
      return std::any_of(x->begin(), x->end(),
                         [&](const auto& o) { return anyOp(*o, f); });
    }
    return false;
  }
  template <class F> static bool anyOp(const QC& q, F f) {
    return std::any_of(q.begin(), q.end(),
                       [&](const auto& o) { return anyOp(*o, f); });
  }
  static bool nested(const QC& q) {
    return std::any_of(q.begin(), q.end(), [](const auto& o) {
      const auto* x = dynamic_cast<const qc::CompoundOperation*>(o.get());
      return x != nullptr && std::any_of(x->begin(), x->end(), [](auto& y) {
               return y->isCompoundOperation();
             });
    });
  }
  static bool compounds(const QC& q) {
    return std::any_of(q.begin(), q.end(),
                       [](const auto& o) { return o->isCompoundOperation(); });
  }
  static bool removable(const qc::Operation& o,
                        const std::unordered_set<qc::OpType>& ty,
                        std::size_t size) {
    return ty.count(o.getType()) != 0 && (size == 0 || o.getNqubits() == size);
  }

  // ------------------------------------------------------------ one pass
  // nullptr: fine; otherwise why the pass may refuse the circuit
  static const char* deferrable(const QC& q, const std::vector<Ref>& rs,
                                bool* disturbed) {
    *disturbed = false;
    const char* why = nullptr;
    if (std::any_of(q.begin(), q.end(), [](const auto& op) {
          return op->isCompoundOperation() && anyOp(*op, [](const auto& o) {
                   return o.getType() == qc::Measure ||
                          o.getType() == qc::Reset ||
                          o.isClassicControlledOperation();
                 });
        })) {
      why = "dynamic compound";
    }
    for (std::size_t i = 0; i < rs.size(); i++) {
      if (rs[i].kind == Ref::RESET) {
        why = "reset";
      }
      if (rs[i].kind == Ref::MEAS && rs[i].targets.size() != 1) {
        why = "several targets";
      }
      if (rs[i].cond && rs[i].csize != 1) {
        why = "register";
      }
    }
    for (std::size_t i = 0; i < rs.size(); i++) {
      if (rs[i].kind != Ref::MEAS) {
        continue;
      }
      for (const auto m : rs[i].targets) {
        for (std::size_t j = i + 1; j < rs.size(); j++) {
          if (rs[j].kind == Ref::U && !diagonalAt(rs[j], m)) {
            *disturbed = true;
          }
          if (rs[j].cond && rs[j].cstart == rs[i].bits[0] &&
              touches(rs[j], m)) {
            why = "implicit reset";
          }
        }
      }
    }
    return why;
  }
  void pass(const Step& st) {
    b.closeComp(true);
    const u64 k = st.at(0) % NPASS;
    const u64 arg = st.at(1);
    const char* name = NAME[k];
    QC& q = b.q;
    const auto before = read(q, "the construction");
    const auto n = q.initialLayout.size();
    const auto w0 = wires(q);
    const auto pos0 = physical(q);
    const auto log0 = logical(q);
    const auto lay0 = q.initialLayout;
    const auto out0 = q.outputPermutation;
    const double gph0 = q.getGlobalPhase();
    std::size_t resets = 0;
    std::vector<std::size_t> lastOf(pos0.size());
    for (const auto w : w0) {
      lastOf[w] = w;
    }
    for (const auto& r : before) {
      if (r.kind == Ref::RESET) {
        for (const auto t : r.targets) {
          lastOf[t] = n + resets++;
        }
      }
    }
    bool disturbed = false;
    const char* refuse = nullptr;
    std::unordered_set<qc::OpType> types;
    std::size_t tsize = 0;
    std::size_t block = 0;
    switch (k) {
    case REMOVE: {
      static const std::vector<qc::OpType> ts{
          qc::I, qc::H, qc::X, qc::Z, qc::T, qc::SWAP, qc::Barrier,
          qc::Measure, qc::Reset, qc::RZ, qc::S};
      for (u64 i = 0; i <= arg % 3; i++) {
        types.insert(ts[(arg >> (8 + 4 * i)) % ts.size()]);
      }
      tsize = (arg >> 4) % 4;
      if (nested(q)) {
        return;
      }
      break;
    }
    case IDENT:
      if (nested(q)) {
        return;
      }
      break;
    case RESETS:
      if (hasGap(q) || n + resets > 7 ||
          q.getNqubitsWithoutAncillae() != n ||
          std::any_of(before.begin(), before.end(), [](const Ref& r) {
            return r.kind == Ref::RESET && r.cond;
          })) {
        return;
      }
      if (nested(q)) {
        return;
      }
      break;
    case DEFER:
    case BLOCKS: {
      if (k == BLOCKS) {
        block = 1 + arg % 4;
      }
      refuse = deferrable(q, before, &disturbed);
      if (disturbed && strict == 0) { // see DESIGN.md: pinned by the tests
        c.count("skip.disturbed");
        return;
      }
      break;
    }
    case BACK:
    case ELIDE: {
      if (k == BACK && hasGap(q)) {
        return;
      }
      std::set<qc::Qubit> outs; // bits written twice are no output labels
      for (const auto& [p, l] : out0) {
        if (!outs.insert(l).second) {
          return;
        }
      }
      break;
    }
    default:
      break;
    }
    const bool directed = (arg & 1U) != 0;
    auto go = [&](QC& x) {
      switch (k) {
      case IDENT:
        return CO::removeIdentities(x);
      case REMOVE:
        return CO::removeOperation(x, types, tsize);
      case SWAPREC:
        return CO::swapReconstruction(x);
      case FUSE:
        return CO::singleQubitGateFusion(x);
      case DIAG:
        return CO::removeDiagonalGatesBeforeMeasure(x);
      case FINAL:
        return CO::removeFinalMeasurements(x);
      case DECSWAP:
        return CO::decomposeSWAP(x, directed);
      case RESETS:
        return CO::eliminateResets(x);
      case DEFER:
        return CO::deferMeasurements(x);
      case FLAT:
        return CO::flattenOperations(x, (arg & 1U) != 0);
      case CANCEL:
        return CO::cancelCNOTs(x);
      case MCX:
        return CO::replaceMCXWithMCZ(x);
      case BACK:
        return CO::backpropagateOutputPermutation(x);
      case BLOCKS:
        return CO::collectBlocks(x, block);
      case ELIDE:
        return CO::elidePermutations(x);
      default:
        return x.reorderOperations();
      }
    };
    const QC copy = q;
    if (failAt != 0) { // the copy is the one that suffers
      bool oom = false;
      bool fired = false;
      {
        auto victim = std::make_unique<QC>(q);
        {
          SutScope s;
          arena::arm(failAt, 1);
          try {
            go(*victim);
          } catch (const std::bad_alloc&) {
            oom = true;
          } catch (const std::exception&) {
          }
          fired = arena::disarm();
        }
        SutScope s;
        victim.reset();
      }
      failAt = 0;
      if (fired) {
        c.count("fault.allocation");
      }
      if (oom && !fired) {
        c.fail(id + "/unexpected-bad-alloc", "%s", name);
      }
      if (circ::describe(read(q, name)) != circ::describe(before)) {
        c.fail(id + "/copy", "a failing %s on a copy changed the original",
               name);
      }
    }
    bool threw = false;
    std::string why;
    try {
      SutScope s;
      go(q);
    } catch (const std::exception& e) {
      threw = true;
      why = e.what();
    }
    if (const auto w = wires(q); hasGap(q)) { // labels may have changed
      b.phys.at.assign(w.begin(), w.begin() + static_cast<long>(nq));
    } else {
      b.phys.at.clear();
    }
    passes++;
    c.ev("%s(%llu)%s", name, (unsigned long long)(arg & 0xff),
         threw ? " refused" : "");
    c.count(fmt("pass.%s", name));
    if (circ::describe(read(copy, name)) != circ::describe(before)) {
      c.fail(id + "/copy", "%s changed a copy of the circuit", name);
    }
    if (threw) {
      if (refuse == nullptr) {
        c.fail(id + "/refused", "%s refused a circuit it supports: %s%s", name,
               why.c_str(), dump(before, before).c_str());
      }
      c.count("refused");
      q = copy;
      return;
    }
    const auto after = read(q, name);
    if (circ::describe(after) != circ::describe(before)) {
      changed++;
      c.count(fmt("changed.%s", name));
    }
    c.feed(after.size());
    for (const auto& s : circ::describe(after)) {
      c.feed(s.data(), s.size());
    }
    if (q.getGlobalPhase() != gph0) {
      c.fail(id + "/global-phase", "%s changed the global phase", name);
    }
    // ---- layouts
    const bool layouts = k == RESETS || k == DEFER || k == BLOCKS ||
                         k == ELIDE || k == BACK;
    if (!layouts &&
        (q.initialLayout != lay0 || q.outputPermutation != out0)) {
      c.fail(id + "/layout", "%s changed the layout", name);
    }
    if ((k == DEFER || k == BLOCKS) && q.initialLayout != lay0) {
      c.fail(id + "/layout", "%s changed the initial layout", name);
    }
    const bool noMeasure =
        std::none_of(before.begin(), before.end(),
                     [](const Ref& r) { return r.kind == Ref::MEAS; });
    if ((k == DEFER || k == BLOCKS) && noMeasure &&
        q.outputPermutation != out0) {
      c.fail(id + "/layout", "%s changed the output permutation", name);
    }
    for (const auto& r : after) {
      for (const auto t : r.targets) {
        if (q.initialLayout.find(static_cast<qc::Qubit>(t)) ==
            q.initialLayout.end()) {
          c.fail(id + "/malformed", "%s left an operation on a missing qubit",
                 name);
        }
      }
      for (const auto& [t, pol] : r.controls) {
        if (q.initialLayout.find(static_cast<qc::Qubit>(t)) ==
            q.initialLayout.end()) {
          c.fail(id + "/malformed", "%s left a control on a missing qubit",
                 name);
        }
      }
    }
    // ---- meaning
    switch (k) {
    case REMOVE:
      removed(name, copy, q, types, tsize);
      break;
    case FINAL:
      finals(name, copy, before, after);
      break;
    case RESETS: {
      if (q.getNqubits() != n + resets) {
        c.fail(id + "/resets", "%zu resets gave %zu qubits out of %zu", resets,
               q.getNqubits(), n);
      }
      if (anyOp(q, [](const auto& o) { return o.getType() == qc::Reset; })) {
        c.fail(id + "/left", "%s left a reset%s", name,
               dump(before, after).c_str());
      }
      Pos keep;
      for (const auto w : w0) {
        keep.push_back(lastOf[w]);
      }
      for (u64 s = 0; s < 2; s++) {
        const auto x = effect(before, pos0, n, n, all(n), 11 + s);
        const auto y =
            effect(after, physical(q), n + resets, n, keep, 11 + s);
        if (x.known && y.known && !(distance(x, y) < 1e-8)) {
          c.fail(id + "/meaning", "%s changed what the circuit does by %.3g%s",
                 name, distance(x, y), dump(before, after).c_str());
        }
      }
      break;
    }
    case ELIDE: {
      if (before.empty()) {
        break;
      }
      for (const auto& [p, l] : q.initialLayout) {
        if (p != l) {
          c.fail(id + "/layout", "%s: initial layout is not the identity",
                 name);
        }
      }
      if (q.outputPermutation.size() != out0.size()) {
        c.fail(id + "/layout", "%s changed the number of outputs", name);
      }
      if (anyOp(q, [](const auto& o) {
            return o.getType() == qc::SWAP && !o.isControlled();
          })) {
        c.fail(id + "/left", "%s left a SWAP", name);
      }
      // outputs in the order of their labels
      auto outs = [](const qc::Permutation& o, const Pos& pos) {
        std::map<qc::Qubit, std::size_t> m;
        for (const auto& [p, l] : o) {
          m[l] = pos.at(p);
        }
        Pos k2;
        for (const auto& [l, p] : m) {
          k2.push_back(p);
        }
        return k2;
      };
      std::set<qc::Qubit> a;
      std::set<qc::Qubit> z;
      for (const auto& [p, l] : out0) {
        a.insert(l);
      }
      for (const auto& [p, l] : q.outputPermutation) {
        z.insert(l);
      }
      if (a != z) {
        c.fail(id + "/layout", "%s changed the outputs", name);
      }
      for (u64 s = 0; s < 2; s++) {
        const auto x = effect(before, log0, n, n, outs(out0, log0), 11 + s);
        const auto y =
            effect(after, logical(q), n, n,
                   outs(q.outputPermutation, logical(q)), 11 + s);
        if (x.known && y.known && !(distance(x, y) < 1e-8)) {
          c.fail(id + "/meaning", "%s changed what the circuit does by %.3g%s",
                 name, distance(x, y), dump(before, after).c_str());
        }
      }
      break;
    }
    case BACK:
      back(name, copy, before, after);
      break;
    default:
      same(name, disturbed ? "defer-disturbed" : "meaning", before, pos0, after,
           physical(q), n);
    }
    // ---- what the pass is for
    auto left = [&](const char* what) {
      c.fail(id + "/left", "%s left %s%s", name, what,
             dump(before, after).c_str());
    };
    switch (k) {
    case IDENT:
      if (anyOp(q, [](const auto& o) { return o.getType() == qc::I; })) {
        left("an identity");
      }
      break;
    case FLAT:
      if (circ::describe(before) != circ::describe(after)) {
        c.fail(id + "/order", "%s changed the operations", name);
      }
      if (std::any_of(q.begin(), q.end(), [&](const auto& o) {
            const auto* x = dynamic_cast<const qc::CompoundOperation*>(o.get());
            return x != nullptr && ((arg & 1U) == 0 || x->isCustomGate());
          })) {
        left("a compound operation");
      }
      break;
    case DECSWAP:
      if (!nested(copy) && anyOp(q, [](const auto& o) {
            return o.getType() == qc::SWAP;
          })) {
        left("a SWAP");
      }
      break;
    case MCX:
      if (anyOp(q, [](const auto& o) {
            return o.getType() == qc::X && o.isControlled();
          })) {
        left("a controlled X");
      }
      break;
    case CANCEL:
    case SWAPREC:
    case DIAG:
      if (after.size() > before.size()) {
        left("more operations than before");
      }
      break;
    case DEFER:
      if (!noMeasure && refuse == nullptr) {
        // a measured qubit is not used any more afterwards
        for (std::size_t i = 0; i < after.size(); i++) {
          if (after[i].kind != Ref::MEAS) {
            continue;
          }
          for (std::size_t j = i + 1; j < after.size(); j++) {
            if (after[j].kind == Ref::U &&
                (touches(after[j], after[i].targets[0]) ||
                 (after[j].cond && after[j].cstart == after[i].bits[0]))) {
              left("an operation after a measurement of its qubit");
            }
          }
        }
      }
      break;
    case BLOCKS:
      for (const auto& op : q) {
        if (const auto* x =
                dynamic_cast<const qc::CompoundOperation*>(op.get())) {
          if (x->getUsedQubits().size() > block && !compounds(copy)) {
            left("a block that is too big");
          }
        }
      }
      break;
    default:
      break;
    }
  }

  void removed(const char* name, const QC& was, const QC& is,
               const std::unordered_set<qc::OpType>& ty, std::size_t size) {
    std::vector<Ref> want;
    for (const auto& op : was) {
      if (removable(*op, ty, size)) {
        continue;
      }
      if (const auto* x = dynamic_cast<const qc::CompoundOperation*>(op.get())) {
        for (const auto& o : *x) {
          if (!removable(*o, ty, size)) {
            circ::refsOfOp(*o, want);
          }
        }
        continue;
      }
      circ::refsOfOp(*op, want);
    }
    for (auto& r : want) {
      if (r.kind == Ref::NOP) {
        for (const auto t : r.targets) {
          r.desc += fmt(" %zu", t);
        }
      }
    }
    if (circ::describe(want) != circ::describe(read(is, name))) {
      c.fail(id + "/removed", "%s did not remove exactly what was asked for%s",
             name, dump(want, read(is, name)).c_str());
    }
    for (const auto& op : is) {
      if (const auto* x = dynamic_cast<const qc::CompoundOperation*>(op.get());
          x != nullptr && x->empty()) {
        c.fail(id + "/left", "%s left an empty compound operation", name);
      }
    }
  }

  // only measurements and barriers at the very end of their qubits may go, and
  // all measurements there have to
  void finals(const char* name, const QC& was, const std::vector<Ref>& before,
              const std::vector<Ref>& after) {
    const auto a = circ::describe(before);
    const auto z = circ::describe(after);
    std::vector<bool> gone(a.size(), false);
    std::size_t j = 0;
    for (std::size_t i = 0; i < a.size(); i++) {
      if (j < z.size() && a[i] == z[j]) {
        j++;
      } else {
        gone[i] = true;
      }
    }
    if (j != z.size()) {
      c.fail(id + "/meaning", "%s changed operations%s", name,
             dump(before, after).c_str());
    }
    auto used = [&](std::size_t i) { // is the outcome used later?
      for (const auto bit : before[i].bits) {
        for (std::size_t k = i + 1; k < before.size(); k++) {
          if (before[k].cond && bit >= before[k].cstart &&
              bit < before[k].cstart + before[k].csize) {
            return true;
          }
          if (before[k].kind == Ref::MEAS && !before[k].cond &&
              std::count(before[k].bits.begin(), before[k].bits.end(), bit) !=
                  0) {
            break;
          }
        }
      }
      return false;
    };
    for (std::size_t i = 0; i < a.size(); i++) {
      if (!gone[i]) {
        continue;
      }
      if (before[i].desc.compare(0, 2, "i ") == 0 && !before[i].cond) {
        continue; // the pass cleans up identities
      }
      if (before[i].cond ||
          (before[i].kind != Ref::MEAS && before[i].kind != Ref::NOP)) {
        c.fail(id + "/meaning", "%s removed %s%s", name, before[i].desc.c_str(),
               dump(before, after).c_str());
      }
      if (before[i].kind == Ref::MEAS && used(i)) {
        c.fail(id + "/used", "%s removed %s, whose outcome is used%s", name,
               before[i].desc.c_str(), dump(before, after).c_str());
      }
      for (std::size_t k = i + 1; k < a.size(); k++) {
        if (gone[k] || before[i].kind == Ref::NOP ||
            before[k].kind == Ref::NOP) {
          continue;
        }
        for (const auto t : before[i].targets) {
          if (touches(before[k], t)) {
            c.fail(id + "/meaning", "%s removed %s before %s", name,
                   before[i].desc.c_str(), before[k].desc.c_str());
          }
        }
      }
    }
    // completeness, for operations at the top level
    if (compounds(was)) {
      return;
    }
    for (std::size_t i = 0; i < a.size(); i++) {
      if (gone[i] || before[i].kind != Ref::MEAS || used(i)) {
        continue;
      }
      bool last = true;
      for (std::size_t k = i + 1; k < a.size(); k++) {
        last = last && !before[k].cond;
        for (const auto t : before[i].targets) {
          last = last && !touches(before[k], t);
        }
      }
      if (last) {
        c.fail(id + "/left", "%s left %s%s", name, before[i].desc.c_str(),
               dump(before, after).c_str());
      }
    }
  }

  // the initial layout is a bijection that the SWAPs turn into the output
  // permutation
  void back(const char* name, const QC& was, const std::vector<Ref>& before,
            const std::vector<Ref>& after) {
    if (circ::describe(before) != circ::describe(after)) {
      c.fail(id + "/order", "%s changed the operations", name);
    }
    const QC& q = b.q;
    if (q.outputPermutation != was.outputPermutation) {
      c.fail(id + "/layout", "%s changed the output permutation", name);
    }
    std::set<qc::Qubit> ps;
    std::set<qc::Qubit> ls;
    for (const auto& [p, l] : q.initialLayout) {
      ps.insert(p);
      ls.insert(l);
    }
    const auto n = was.getNqubits();
    if (ps.size() != n || ls.size() != n || *ps.rbegin() != n - 1 ||
        *ls.rbegin() != n - 1) {
      c.fail(id + "/layout", "%s: the initial layout is no permutation", name);
    }
    std::map<qc::Qubit, qc::Qubit> at; // physical -> logical
    for (const auto& [p, l] : q.initialLayout) {
      at[p] = l;
    }
    for (const auto& op : was) {
      anyOp(*op, [&](const auto& o) {
        if (o.getType() == qc::SWAP && !o.isControlled()) {
          std::swap(at[o.getTargets()[0]], at[o.getTargets()[1]]);
        }
        return false;
      });
    }
    for (const auto& [p, l] : was.outputPermutation) {
      if (l < n && at[p] != l) {
        c.fail(id + "/layout",
               "%s: output %u is on wire %u, where the SWAPs bring qubit %u",
               name, unsigned(l), unsigned(p), unsigned(at[p]));
      }
    }
  }

  // ------------------------------------------------------------ building
  qc::Qubit wire(u64 r) {
    const auto w = wires(b.q);
    return w[r % w.size()];
  }
  void put(std::unique_ptr<qc::Operation> op) {
    Ref r; // the circuit itself is read back
    b.put(std::move(op), r);
  }
  void run() {
    const std::size_t nc = plan.knob("nc", 2) % 5;
    strict = plan.knob("strict", 0);
    if (nc > 0) {
      const std::size_t split = plan.knob("split", 0) % nc;
      if (split > 0) {
        b.q.addClassicalRegister(split, "a");
        regs.emplace_back(0, split);
      }
      b.q.addClassicalRegister(nc - split, "b");
      regs.emplace_back(split, nc - split);
    }
    if (plan.knob("lay", 0) != 0) {
      const auto l = circ::permutation(plan.knob("lay", 0), nq);
      for (std::size_t k = 0; k < nq; k++) {
        b.q.initialLayout[b.phys.at[k]] = static_cast<qc::Qubit>(l[k]);
      }
    }
    if (plan.knob("out", 0) != 0) {
      const auto l = circ::permutation(plan.knob("out", 0), nq);
      const auto miss = plan.knob("miss", 0);
      b.q.outputPermutation.clear();
      for (std::size_t k = 0; k < nq; k++) {
        if (((miss >> k) & 1U) == 0) {
          b.q.outputPermutation[b.phys.at[k]] = static_cast<qc::Qubit>(l[k]);
        }
      }
    }
    if (plan.knob("gph", 0) != 0) {
      b.q.gphase(gt::ang(plan.knob("gph", 0)));
    }
    for (const auto& st : plan.steps) {
      c.steps++;
      if (st.op == "g") {
        b.gate(circ::decode(st.at(0), st.at(1), st.at(2), st.at(3), nq),
               st.at(4) % 2 == 0);
      } else if (st.op == "ph") {
        b.phaseOp(gt::ang(st.at(0)), circ::controlsFrom(st.at(1), nq,
                                                        st.at(2) % 3));
      } else if (st.op == "bar") {
        if (st.at(0) % 2 == 0) {
          b.closeComp(true);
          for (const auto w : wires(b.q)) {
            b.q.barrier(w);
          }
        } else {
          b.q.barrier(wire(st.at(1)));
        }
      } else if (st.op == "comp") {
        b.closeComp(true);
        b.comp = std::make_unique<qc::CompoundOperation>(
            std::vector<std::unique_ptr<qc::Operation>>{}, st.at(1) % 2 == 0);
        b.compLeft = 1 + st.at(0) % 4;
      } else if (st.op == "nest") {
        // the last two operations become one, possibly of compounds
        b.closeComp(true);
        if (b.q.getNops() >= 2 && !st.a.empty()) {
          auto two = std::make_unique<qc::CompoundOperation>(
              std::vector<std::unique_ptr<qc::Operation>>{},
              st.at(0) % 2 == 0);
          auto it = std::prev(b.q.end(), 2);
          two->emplace_back((*it)->clone());
          two->emplace_back((*std::next(it))->clone());
          b.q.pop_back();
          b.q.pop_back();
          b.q.emplace_back(std::unique_ptr<qc::Operation>(std::move(two)));
        }
      } else if (st.op == "meas" && nc > 0) {
        const auto sel = circ::permutation(st.at(0), nq);
        const auto bs = circ::permutation(st.at(1), nc);
        const std::size_t k = 1 + st.at(2) % std::min<std::size_t>(nq, nc);
        std::vector<qc::Qubit> t;
        std::vector<qc::Bit> bi;
        for (std::size_t i = 0; i < k; i++) {
          t.push_back(b.phys.of(static_cast<qc::Qubit>(sel[i])));
          bi.push_back(bs[i]);
        }
        put(std::make_unique<qc::NonUnitaryOperation>(t, bi));
      } else if (st.op == "reset") {
        const auto sel = circ::permutation(st.at(0), nq);
        const std::size_t k = 1 + st.at(1) % nq;
        std::vector<qc::Qubit> t;
        for (std::size_t i = 0; i < k; i++) {
          t.push_back(b.phys.of(static_cast<qc::Qubit>(sel[i])));
        }
        put(std::make_unique<qc::NonUnitaryOperation>(t, qc::Reset));
      } else if (st.op == "if" && nc > 0) {
        const auto g = circ::decode(st.at(0), st.at(1), st.at(2), st.at(3), nq,
                                    2);
        const u64 how = st.at(4);
        static const qc::ComparisonKind ck[] = {qc::Eq,  qc::Neq, qc::Lt,
                                                qc::Leq, qc::Gt,  qc::Geq};
        if (how % 3 != 0) {
          put(std::make_unique<qc::ClassicControlledOperation>(
              circ::opOf(b.phys.on(g)), static_cast<qc::Bit>((how >> 8) % nc),
              (how >> 4) % 2, ck[(how >> 5) % 2]));
        } else {
          const auto& rg = regs[(how >> 8) % regs.size()];
          const auto& reg = b.q.getClassicalRegisters().at(
              rg.first == 0 && regs.size() > 1 ? "a" : "b");
          put(std::make_unique<qc::ClassicControlledOperation>(
              circ::opOf(b.phys.on(g)), reg,
              (how >> 16) % (u64{1} << rg.second), ck[(how >> 4) % 6]));
        }
      } else if (st.op == "fail") {
        failAt = 1 + st.at(0) % 60;
      } else if (st.op == "pass") {
        pass(st);
      }
    }
    b.closeComp(true);
    c.nontrivial = passes > 0 && changed > 0;
    c.cover(mix(changed) ^ mix(passes * 77 + b.q.getNindividualOps()));
  }
};

void run17(const Plan& p, Ctx& c) { S17(c, p).run(); }

Plan gen17(u64 seed) {
  Rng r(seed);
  Plan p;
  p.prop = "P17";
  auto knob = [&](const char* n, u64 v) { p.add("knob", {v}, n); };
  knob("layout", r.next() >> 32);
  // 0 anything, 1 CNOTs and SWAPs, 2 single-qubit gates, 3 diagonal gates,
  // 4 measurements and conditions, 5 resets, 6 blocks
  const u64 kind = r.below(7);
  knob("nq", kind == 1 && r.chance(0.5) ? 1 + r.below(2) : r.below(4));
  const bool dyn = kind >= 3 && kind != 6;
  knob("nc", dyn || r.chance(0.3) ? 1 + r.below(4) : 0);
  knob("split", r.below(4));
  knob("gap", r.chance(0.08) ? 1 + (r.next() >> 40) : 0);
  knob("lay", r.below(2) == 0 ? 0 : 1 + (r.next() >> 30));
  knob("out", r.below(2) == 0 ? 0 : 1 + (r.next() >> 30));
  knob("miss", r.chance(0.3) ? r.below(16) : 0);
  knob("gph", r.chance(0.1) ? 1 + (r.next() >> 30) : 0);
  const double pcomp = r.chance(0.4) ? 0.12 : 0;
  const double pfail = r.chance(0.3) ? 0.5 : 0;
  static const std::vector<u64> single{0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10,
                                       13, 15, 16, 18};
  static const std::vector<u64> diag{0, 4, 5, 6, 7, 8, 15, 18, 28};
  auto gate = [&](const char* op, u64 ty, u64 cs) {
    p.add(op, {ty, r.next() >> 40, cs, r.next() >> 40, r.next() >> 20});
  };
  auto any = [&](const char* op) { gate(op, r.below(32), r.next() >> 30); };
  const u64 pos = 0xffff00;
  auto body = [&] {
    const double x = r.unit();
    if (r.chance(0.04)) {
      p.add("bar", {r.next() >> 60, r.next() >> 60});
      return;
    }
    if (r.chance(0.02)) {
      p.add("ph", {r.next() >> 40, r.next() >> 20, r.below(4)});
      return;
    }
    switch (kind) {
    case 1:
      if (x < 0.6) {
        gate("g", 2, pos); // CNOT
      } else if (x < 0.8) {
        gate("g", 19, x < 0.75 ? 7 : pos);
      } else if (x < 0.86) {
        gate("g", 2, (r.next() >> 40) & ~u64{7});
      } else if (x < 0.93) {
        gate("g", r.pick(single), 7);
      } else {
        any("g");
      }
      return;
    case 2:
      if (x < 0.75) {
        gate("g", r.pick(single), 7);
      } else if (x < 0.85) {
        gate("g", 2, pos);
      } else if (x < 0.9) {
        p.add("meas", {r.next() >> 40, r.next() >> 40, 0});
      } else if (x < 0.93) {
        p.add("reset", {r.next() >> 40, 0});
      } else {
        any("g");
      }
      return;
    case 3:
      if (x < 0.45) {
        gate("g", r.pick(diag), 7);
      } else if (x < 0.7) {
        gate("g", r.pick(diag), (r.next() >> 30));
      } else if (x < 0.85) {
        gate("g", 1, 7);
      } else {
        any(x < 0.9 ? "if" : "g");
      }
      return;
    case 4:
      if (x < 0.25) {
        p.add("meas", {r.next() >> 40, r.next() >> 40,
                       r.chance(0.9) ? 0 : r.below(4)});
      } else if (x < 0.5) {
        any("if");
      } else if (x < 0.65) {
        gate("g", r.pick(diag), r.next() >> 30);
      } else if (x < 0.8) {
        gate("g", 2, pos);
      } else {
        any("g");
      }
      return;
    case 5:
      if (x < 0.2) {
        p.add("reset", {r.next() >> 40, r.chance(0.8) ? 0 : r.below(4)});
      } else if (x < 0.35) {
        p.add("meas", {r.next() >> 40, r.next() >> 40,
                       r.chance(0.7) ? 0 : r.below(4)});
      } else if (x < 0.5) {
        any("if");
      } else {
        any("g");
      }
      return;
    case 6:
      if (x < 0.4) {
        gate("g", r.pick(single), 7);
      } else if (x < 0.7) {
        gate("g", 2, x < 0.6 ? pos : 3 | pos);
      } else {
        any("g");
      }
      return;
    default:
      if (x < 0.05) {
        p.add("meas", {r.next() >> 40, r.next() >> 40, r.below(4)});
      } else if (x < 0.08) {
        p.add("reset", {r.next() >> 40, r.below(4)});
      } else if (x < 0.12) {
        any("if");
      } else {
        any("g");
      }
    }
  };
  const std::vector<std::vector<u64>> likely{
      {IDENT, FLAT, MCX, ELIDE, REORDER, REMOVE},
      {SWAPREC, CANCEL, DECSWAP, ELIDE, BACK, MCX},
      {FUSE, FUSE, BLOCKS, IDENT},
      {DIAG, DIAG, DEFER, FINAL},
      {DEFER, DEFER, FINAL, DIAG, REORDER, BLOCKS},
      {RESETS, RESETS, DEFER, FINAL, ELIDE},
      {BLOCKS, BLOCKS, FUSE, FLAT, REORDER}};
  auto pass = [&] {
    if (r.chance(pfail)) {
      p.add("fail", {r.chance(0.7) ? r.below(12) : r.below(60)});
    }
    p.add("pass", {r.chance(0.75) ? r.pick(likely[kind]) : r.below(NPASS),
                   r.next() >> 24});
  };
  const u64 rounds = 1 + r.below(3);
  for (u64 k = 0; k < rounds; k++) {
    for (u64 i = 0, n = 1 + r.below(kind == 4 ? 9 : 12); i < n; i++) {
      if (r.chance(pcomp)) {
        p.add("comp", {r.below(4), r.next() >> 60});
      } else if (r.chance(pcomp * 0.4)) {
        p.add("nest", {r.next() >> 60});
      }
      body();
    }
    if (dyn && r.chance(0.7)) {
      for (u64 i = 0, n = 1 + r.below(3); i < n; i++) {
        p.add("meas", {r.next() >> 40, r.next() >> 40,
                       r.chance(0.5) ? 0 : r.below(4)});
      }
    }
    for (u64 i = 0, n = 1 + r.below(3); i < n; i++) {
      pass();
    }
  }
  return p;
}
const Register R17("P17", gen17, run17, 30);
} // namespace
