// P14: editing circuits. Histories of accepted and rejected edits, copies,
// moves and failing allocations; an independent model predicts the whole
// bookkeeping and the operation list after every step.
#include "circbuild.hpp"

#include "ir/QuantumComputation.hpp"
#include "ir/operations/CompoundOperation.hpp"
#include "ir/operations/SymbolicOperation.hpp"

#include <algorithm>
#include <cmath>
#include <limits>
#include <map>
#include <memory>
#include <new>
#include <optional>
#include <set>
#include <sstream>
#include <tuple>

using namespace sim;
using dn::Mat;
using qc::Qubit;

namespace {
constexpr std::size_t MAXQ = 8;
constexpr std::size_t MAXB = 14;
constexpr std::size_t MAXOPS = 40;

const std::vector<sym::Variable> &variables() {
  static const std::vector<sym::Variable> v{
      sym::Variable("a"), sym::Variable("b"), sym::Variable("c")};
  return v;
}
const double VALS[3] = {0.731, -1.377, 2.113};

// ------------------------------------------------------- operation records
struct Param {
  double num = 0;
  bool sym = false;
  std::vector<std::pair<int, double>> terms; // (variable, coefficient), sorted
  bool operator==(const Param &o) const {
    return num == o.num && sym == o.sym && terms == o.terms;
  }
  double eval() const {
    double r = num;
    for (const auto &[v, k] : terms) {
      r += k * VALS[v];
    }
    return r;
  }
};
struct Rec {
  enum Kind { STD, NONU, CC, COMP } kind = STD;
  qc::OpType t = qc::None;
  std::vector<Qubit> tg;
  std::vector<std::pair<Qubit, bool>> ct;
  std::vector<Param> par;
  std::vector<u64> bits;
  bool isReg = false;
  u64 cstart = 0, csize = 0, cval = 0;
  int cmp = 0;
  std::vector<Rec> sub;
  std::string name;
  bool operator==(const Rec &o) const {
    return std::tie(kind, t, tg, ct, par, bits, isReg, cstart, csize, cval, cmp,
                    sub) == std::tie(o.kind, o.t, o.tg, o.ct, o.par, o.bits,
                                     o.isReg, o.cstart, o.csize, o.cval, o.cmp,
                                     o.sub);
  }
  std::string text() const {
    std::string s = sim::fmt("%d:%s", int(kind), qc::toString(t).c_str());
    for (const auto &p : par) {
      s += sim::fmt(" %.5g%s", p.num, p.sym ? "+sym" : "");
    }
    for (const auto &[q, b] : ct) {
      s += sim::fmt(" %c%u", b ? '+' : '-', unsigned(q));
    }
    s += " ->";
    for (const auto q : tg) {
      s += sim::fmt(" %u", unsigned(q));
    }
    for (const auto b : bits) {
      s += sim::fmt(" c%llu", (unsigned long long)b);
    }
    if (kind == CC) {
      s += sim::fmt(" if %s%llu+%llu cmp%d %llu", isReg ? "reg" : "bit",
                    (unsigned long long)cstart, (unsigned long long)csize, cmp,
                    (unsigned long long)cval);
    }
    for (const auto &x : sub) {
      s += " {" + x.text() + "}";
    }
    return s;
  }
};
int varIndex(const sym::Variable &v) {
  for (int i = 0; i < 3; i++) {
    if (variables()[static_cast<std::size_t>(i)].getName() == v.getName()) {
      return i;
    }
  }
  return -1;
}
Param readParam(const qc::SymbolOrNumber &s) {
  Param p;
  if (std::holds_alternative<qc::fp>(s)) {
    p.num = std::get<qc::fp>(s);
    return p;
  }
  const auto &e = std::get<qc::Symbolic>(s);
  p.sym = true;
  p.num = e.getConst();
  for (const auto &t : e) {
    p.terms.emplace_back(varIndex(t.getVar()), t.getCoeff());
  }
  std::sort(p.terms.begin(), p.terms.end());
  return p;
}
Rec readOp(const qc::Operation &op) {
  Rec r;
  r.t = op.getType();
  r.name = op.getName();
  if (const auto *k = dynamic_cast<const qc::CompoundOperation *>(&op)) {
    r.kind = Rec::COMP;
    for (const auto &s : *k) {
      r.sub.push_back(readOp(*s));
    }
    return r;
  }
  if (const auto *k =
          dynamic_cast<const qc::ClassicControlledOperation *>(&op)) {
    r.kind = Rec::CC;
    r.cval = k->getExpectedValue();
    r.cmp = static_cast<int>(k->getComparisonKind());
    if (const auto &reg = k->getControlRegister(); reg.has_value()) {
      r.isReg = true;
      r.cstart = reg->getStartIndex();
      r.csize = reg->getSize();
    }
    if (const auto &b = k->getControlBit(); b.has_value()) {
      r.cstart = *b;
      r.csize = 1;
    }
    r.sub.push_back(readOp(*k->getOperation()));
    return r;
  }
  r.tg = op.getTargets();
  for (const auto &x : op.getControls()) {
    r.ct.emplace_back(x.qubit, x.type == qc::Control::Type::Pos);
  }
  if (const auto *k = dynamic_cast<const qc::NonUnitaryOperation *>(&op)) {
    r.kind = Rec::NONU;
    if (r.t == qc::Measure) {
      r.bits.assign(k->getClassics().begin(), k->getClassics().end());
    }
    return r;
  }
  if (const auto *k = dynamic_cast<const qc::SymbolicOperation *>(&op)) {
    for (const auto &p : k->getParameters()) {
      r.par.push_back(readParam(p));
    }
    return r;
  }
  for (const double p : op.getParameter()) {
    r.par.push_back({p, false, {}});
  }
  return r;
}
void usedQ(const Rec &r, std::set<Qubit> &s) {
  s.insert(r.tg.begin(), r.tg.end());
  for (const auto &[q, b] : r.ct) {
    s.insert(q);
  }
  for (const auto &x : r.sub) {
    usedQ(x, s);
  }
}
void usedB(const Rec &r, std::set<u64> &s) {
  s.insert(r.bits.begin(), r.bits.end());
  for (u64 k = 0; k < r.csize; k++) {
    s.insert(r.cstart + k);
  }
  for (const auto &x : r.sub) {
    usedB(x, s);
  }
}
void usedV(const Rec &r, std::set<int> &s) {
  for (const auto &p : r.par) {
    for (const auto &[v, k] : p.terms) {
      s.insert(v);
    }
  }
  for (const auto &x : r.sub) {
    usedV(x, s);
  }
}
bool hasNonU(const Rec &r) {
  if (r.kind == Rec::NONU) {
    return true;
  }
  return std::any_of(r.sub.begin(), r.sub.end(), hasNonU);
}
bool hasEmpty(const Rec& r) {
  return (r.kind == Rec::COMP && r.sub.empty()) ||
         std::any_of(r.sub.begin(), r.sub.end(), hasEmpty);
}
bool hasCC(const Rec &r) {
  return r.kind == Rec::CC || std::any_of(r.sub.begin(), r.sub.end(), hasCC);
}
bool isSym(const Rec &r) {
  return std::any_of(r.par.begin(), r.par.end(),
                     [](const Param &p) { return p.sym; }) ||
         std::any_of(r.sub.begin(), r.sub.end(), isSym);
}
bool touches(const Rec &r, Qubit q) {
  std::set<Qubit> s;
  usedQ(r, s);
  return s.count(q) != 0;
}
// unitary of a record on the given qubits; nullopt if it has none
std::optional<Mat> matOf(const Rec &r, const std::vector<Qubit> &qs) {
  const auto dim = std::size_t{1} << qs.size();
  if (r.kind == Rec::NONU || r.kind == Rec::CC) {
    return std::nullopt;
  }
  if (r.kind == Rec::COMP) {
    Mat m = Mat::id(dim);
    for (const auto &x : r.sub) {
      const auto y = matOf(x, qs);
      if (!y) {
        return std::nullopt;
      }
      m = dn::mul(*y, m);
    }
    return m;
  }
  if (r.t == qc::Barrier) {
    return Mat::id(dim);
  }
  auto loc = [&](Qubit q) {
    return static_cast<std::size_t>(std::find(qs.begin(), qs.end(), q) -
                                    qs.begin());
  };
  std::vector<std::size_t> t;
  std::vector<std::pair<std::size_t, bool>> cs;
  for (const auto q : r.tg) {
    t.push_back(loc(q));
  }
  for (const auto &[q, b] : r.ct) {
    cs.emplace_back(loc(q), b);
  }
  std::vector<double> ps;
  for (const auto &p : r.par) {
    ps.push_back(p.eval());
  }
  Mat u(1);
  if (r.t == qc::GPhase) {
    u.at(0, 0) = gt::ex(ps.at(0));
  } else {
    u = circ::refGate(r.t, ps);
    if (u.d != (std::size_t{1} << t.size())) {
      return std::nullopt;
    }
  }
  return dn::embed(u, t, cs, qs.size());
}

// ------------------------------------------------------------ circuit state
struct Reg {
  u64 start, size;
  bool operator==(const Reg &o) const {
    return start == o.start && size == o.size;
  }
};
using Regs = std::map<std::string, Reg>;
struct State {
  std::map<Qubit, Qubit> in, out;
  std::map<Qubit, bool> anc; // by label, labels of `in` only
  std::set<Qubit> garb;
  std::size_t nq = 0, na = 0, nc = 0;
  Regs q, a, c;
  double phase = 0;
  std::set<int> vars;
  std::string name;
  std::vector<Rec> ops;
  std::size_t flagLen = 0;

  bool label(Qubit l) const {
    return std::any_of(in.begin(), in.end(),
                       [&](const auto &p) { return p.second == l; });
  }
  bool outVal(Qubit l) const {
    return std::any_of(out.begin(), out.end(),
                       [&](const auto &p) { return p.second == l; });
  }
  std::vector<Qubit> freeLabels(std::size_t n) const {
    std::vector<Qubit> r;
    for (Qubit l = 0; r.size() < n; l++) {
      if (!label(l)) {
        r.push_back(l);
      }
    }
    return r;
  }
  bool idle(Qubit p) const {
    return std::none_of(ops.begin(), ops.end(),
                        [&](const Rec &r) { return touches(r, p); });
  }
  bool nameUsed(const std::string &s) const {
    return q.count(s) != 0 || a.count(s) != 0;
  }
};
State readState(const qc::QuantumComputation &q) {
  State s;
  for (const auto &[p, l] : q.initialLayout) {
    s.in[p] = l;
  }
  for (const auto &[p, l] : q.outputPermutation) {
    s.out[p] = l;
  }
  const auto &anc = q.getAncillary();
  const auto &garb = q.getGarbage();
  for (std::size_t i = 0; i < anc.size(); i++) {
    if (s.label(static_cast<Qubit>(i)) || anc[i]) {
      s.anc[static_cast<Qubit>(i)] = anc[i];
    }
  }
  for (std::size_t i = 0; i < garb.size(); i++) {
    if (garb[i]) {
      s.garb.insert(static_cast<Qubit>(i));
    }
  }
  s.flagLen = anc.size() == garb.size() ? anc.size() : 9999;
  s.nq = q.getNqubitsWithoutAncillae();
  s.na = q.getNancillae();
  s.nc = q.getNcbits();
  for (const auto &[n, r] : q.getQuantumRegisters()) {
    s.q[n] = {r.getStartIndex(), r.getSize()};
  }
  for (const auto &[n, r] : q.getAncillaRegisters()) {
    s.a[n] = {r.getStartIndex(), r.getSize()};
  }
  for (const auto &[n, r] : q.getClassicalRegisters()) {
    s.c[n] = {r.getStartIndex(), r.getSize()};
  }
  s.phase = q.getGlobalPhase();
  for (const auto &v : q.getVariables()) {
    s.vars.insert(varIndex(v));
  }
  s.name = q.getName();
  for (const auto &op : q) {
    s.ops.push_back(readOp(*op));
  }
  return s;
}
double phaseGap(double a, double b) {
  return std::abs(std::polar(1.0, a) - std::polar(1.0, b));
}
std::string perm(const std::map<Qubit, Qubit> &m) {
  std::string s;
  for (const auto &[k, v] : m) {
    s += sim::fmt(" %u:%u", unsigned(k), unsigned(v));
  }
  return s;
}

const char *const RNAMES[] = {"q", "r", "anc", "q_l", "q_h", "w", "anc_h"};
const char *const CNAMES[] = {"c", "d", "meas", "e"};

struct S14 {
  Ctx &c;
  const Plan &plan;
  const std::string id = "P14";
  struct Slot {
    std::unique_ptr<qc::QuantumComputation> q;
    State m;
  };
  Slot sl[2];
  u64 failAt = 0, failLen = 1;
  u64 edits = 0, rejects = 0;

  S14(Ctx &ctx, const Plan &p) : c(ctx), plan(p) {}

  // ------------------------------------------------------------ comparing
  // what: 0 everything, 1 registers may be arranged differently, 2 variables
  // may be a superset
  void compare(const State &got, const State &want, const char *when,
               bool looseRegs = false, bool looseVars = false) {
    auto bad = [&](const char *what, const std::string &a,
                   const std::string &b) {
      c.fail(id + "/" + what, "%s: %s is%s, expected%s", when, what, a.c_str(),
             b.c_str());
    };
    if (got.in != want.in) {
      bad("initial-layout", perm(got.in), perm(want.in));
    }
    if (got.out != want.out) {
      bad("output-permutation", perm(got.out), perm(want.out));
    }
    if (got.nq != want.nq || got.na != want.na || got.nc != want.nc) {
      bad("counts", sim::fmt(" %zu/%zu/%zu", got.nq, got.na, got.nc),
          sim::fmt(" %zu/%zu/%zu", want.nq, want.na, want.nc));
    }
    if (got.anc != want.anc) {
      std::string a;
      std::string b;
      for (const auto &[l, f] : got.anc) {
        a += sim::fmt(" %u:%d", unsigned(l), int(f));
      }
      for (const auto &[l, f] : want.anc) {
        b += sim::fmt(" %u:%d", unsigned(l), int(f));
      }
      bad("ancillary-flags", a, b);
    }
    if (got.garb != want.garb) {
      std::string a;
      std::string b;
      for (const auto l : got.garb) {
        a += sim::fmt(" %u", unsigned(l));
      }
      for (const auto l : want.garb) {
        b += sim::fmt(" %u", unsigned(l));
      }
      bad("garbage-flags", a, b);
    }
    if (!(phaseGap(got.phase, want.phase) < 1e-9) ||
        !(got.phase > -1e-9 && got.phase < 2 * gt::PI + 1e-9)) {
      bad("global-phase", sim::fmt(" %.12g", got.phase),
          sim::fmt(" %.12g", want.phase));
    }
    if (looseVars ? !std::includes(got.vars.begin(), got.vars.end(),
                                   want.vars.begin(), want.vars.end())
                  : got.vars != want.vars) {
      bad("variables", sim::fmt(" %zu", got.vars.size()),
          sim::fmt(" %zu", want.vars.size()));
    }
    if (got.name != want.name) {
      bad("name", " " + got.name, " " + want.name);
    }
    if (got.c != want.c) {
      bad("classical-registers", sim::fmt(" %zu", got.c.size()),
          sim::fmt(" %zu", want.c.size()));
    }
    if (!looseRegs && (got.q != want.q || got.a != want.a)) {
      auto show = [](const State &s) {
        std::string r;
        for (const auto *x : {&s.q, &s.a}) {
          for (const auto &[n, g] : *x) {
            r += sim::fmt(" %s@%llu+%llu", n.c_str(),
                          (unsigned long long)g.start,
                          (unsigned long long)g.size);
          }
          r += " ;";
        }
        return r;
      };
      bad("registers", show(got), show(want));
    }
    if (got.ops.size() != want.ops.size()) {
      bad("operation-count", sim::fmt(" %zu", got.ops.size()),
          sim::fmt(" %zu", want.ops.size()));
    }
    for (std::size_t i = 0; i < got.ops.size(); i++) {
      if (!(got.ops[i] == want.ops[i])) {
        bad("operation", sim::fmt(" [%zu] ", i) + got.ops[i].text(),
            " " + want.ops[i].text());
      }
    }
  }
  // the circuit agrees with itself
  void invariants(const qc::QuantumComputation &q, const State &s,
                  const char *when) {
    auto bad = [&](const char *what, const std::string &d) {
      c.fail(id + "/" + what, "%s: %s", when, d.c_str());
    };
    if (s.in.size() != s.nq + s.na || q.getNqubits() != s.in.size()) {
      bad("counts",
          sim::fmt("%zu+%zu qubits, layout has %zu", s.nq, s.na, s.in.size()));
    }
    std::set<Qubit> labels;
    for (const auto &[p, l] : s.in) {
      labels.insert(l);
    }
    if (labels.size() != s.in.size()) {
      bad("initial-layout",
          "a logical qubit sits on two physical ones" + perm(s.in));
    }
    std::set<Qubit> outs;
    for (const auto &[p, l] : s.out) {
      outs.insert(l);
      if (s.in.count(p) == 0) {
        bad("output-permutation",
            sim::fmt("output from missing qubit %u", unsigned(p)));
      }
    }
    if (outs.size() != s.out.size()) {
      bad("output-permutation",
          "two qubits have the same output" + perm(s.out));
    }
    std::size_t na = 0;
    for (const auto &[l, f] : s.anc) {
      if (f && labels.count(l) == 0) {
        bad("ancillary-flags",
            sim::fmt("flag of missing qubit %u", unsigned(l)));
      }
      na += f ? 1U : 0U;
    }
    if (na != s.na) {
      bad("ancillary-flags", sim::fmt("%zu flags, %zu ancillae", na, s.na));
    }
    if (s.flagLen != (labels.empty() ? 0 : *labels.rbegin() + 1U)) {
      bad("flag-length", sim::fmt("%zu", s.flagLen));
    }
    if (q.getNgarbageQubits() != s.garb.size() ||
        (s.garb.size() <= s.in.size() &&
         q.getNmeasuredQubits() != s.in.size() - s.garb.size())) {
      bad("garbage-count", sim::fmt("%zu", q.getNgarbageQubits()));
    }
    // registers cover exactly the qubits
    std::map<u64, int> cover;
    std::set<std::string> names;
    for (const auto *rs : {&s.q, &s.a}) {
      for (const auto &[n, r] : *rs) {
        if (!names.insert(n).second || r.size == 0) {
          bad("registers", "register " + n + " is doubled or empty");
        }
        for (u64 k = 0; k < r.size; k++) {
          cover[r.start + k]++;
        }
      }
    }
    for (const auto *rs :
         {&q.getQuantumRegisters(), &q.getAncillaRegisters()}) {
      for (const auto &[n, r] : *rs) {
        if (r.getName() != n) {
          bad("registers", "register " + n + " calls itself " + r.getName());
        }
      }
    }
    for (const auto &[p, l] : s.in) {
      if (cover[p] != 1) {
        bad("registers",
            sim::fmt("qubit %u is in %d registers", unsigned(p), cover[p]));
      }
    }
    if (cover.size() != s.in.size()) {
      bad("registers", sim::fmt("registers cover %zu qubits of %zu",
                                cover.size(), s.in.size()));
    }
    std::map<u64, int> bits;
    for (const auto &[n, r] : s.c) {
      for (u64 k = 0; k < r.size; k++) {
        bits[r.start + k]++;
      }
    }
    if (bits.size() != s.nc ||
        (!bits.empty() && bits.rbegin()->first != s.nc - 1)) {
      bad("classical-registers",
          sim::fmt("%zu bits covered of %zu", bits.size(), s.nc));
    }
    std::set<int> vs;
    for (const auto &r : s.ops) {
      usedV(r, vs);
    }
    if (!std::includes(s.vars.begin(), s.vars.end(), vs.begin(), vs.end())) {
      bad("variables", "an operation uses an unknown variable");
    }
    for (const auto &r : s.ops) {
      std::set<Qubit> us;
      usedQ(r, us);
      for (const auto p : us) {
        if (s.in.count(p) == 0) {
          bad("operation-qubit", r.text());
        }
      }
    }
  }

  // ------------------------------------------------------------ running code
  enum Out { OK, REJECT, OOM };
  template <class F> Out call(const char *what, F f) {
    Out o = OK;
    bool fired = false;
    {
      SutScope s;
      if (failAt != 0) {
        arena::arm(failAt, failLen);
      }
      try {
        f();
      } catch (const std::bad_alloc &) {
        o = OOM;
      } catch (const std::exception &) {
        o = REJECT;
      }
      fired = arena::disarm();
    }
    const bool armed = failAt != 0;
    failAt = 0;
    lastOom = o == OOM;
    if (fired) {
      c.count("fault.allocation");
    }
    if (o == OOM && !(armed && fired)) {
      c.fail(id + "/unexpected-bad-alloc", "%s", what);
    }
    c.ev("%s -> %d", what, int(o));
    c.feed(static_cast<u64>(o));
    edits++;
    if (o == REJECT) {
      rejects++;
    }
    return o;
  }
  // An edit of slot s. `want` is the predicted state if accepted, `reject`
  // tells whether it has to be refused. strong: a failed allocation leaves the
  // circuit as it was.
  template <class F>
  void edit(std::size_t s, const char *what, F f, const State &want,
            bool reject, bool strong, bool looseRegs = false,
            bool adoptOps = false) {
    auto &x = sl[s];
    std::unique_ptr<qc::QuantumComputation> backup;
    if (failAt != 0) {
      backup = std::make_unique<qc::QuantumComputation>(*x.q);
    }
    const Out o = call(what, [&] { f(*x.q); });
    if (o == OOM) {
      if (strong) {
        State got = readState(*x.q);
        std::set<int> before = x.m.vars;
        compare(got, x.m,
                sim::fmt("%s after a failed allocation", what).c_str(), false,
                true);
        x.m.vars = got.vars;
        invariants(*x.q, got, what);
      } else {
        *x.q = *backup;
        compare(readState(*x.q), x.m, "assigning to a circuit after a failure");
      }
      return;
    }
    if (reject != (o == REJECT)) {
      c.fail(id + (reject ? "/accepted" : "/refused"), "%s was %s", what,
             reject ? "not refused" : "refused");
    }
    State got = readState(*x.q);
    if (o == REJECT) {
      compare(got, x.m, sim::fmt("%s (refused)", what).c_str());
      return;
    }
    State w = want;
    if (adoptOps) {
      w.ops = got.ops;
    }
    compare(got, w, what, looseRegs);
    w.q = got.q;
    w.a = got.a;
    w.phase = got.phase;
    x.m = std::move(w);
    x.m.flagLen = got.flagLen;
    invariants(*x.q, got, what);
  }

  // ------------------------------------------------------------ helpers
  std::vector<Qubit> phys(const State &m) const {
    std::vector<Qubit> r;
    for (const auto &[p, l] : m.in) {
      r.push_back(p);
    }
    return r;
  }
  Qubit missing(const State &m, u64 r) const {
    for (Qubit p = static_cast<Qubit>(r % 12);; p++) {
      if (m.in.count(p) == 0) {
        return p;
      }
    }
  }
  Qubit missingLabel(const State &m, u64 r) const {
    for (Qubit p = static_cast<Qubit>(r % 12);; p++) {
      if (!m.label(p)) {
        return p;
      }
    }
  }
  // semantic equality of a record with a unitary on the same qubits
  void sameUnitary(const Rec &got, const Rec &want, const char *what) {
    std::set<Qubit> a;
    std::set<Qubit> b;
    usedQ(got, a);
    usedQ(want, b);
    if (a != b) {
      c.fail(id + "/operation", "%s acts on other qubits: %s, expected %s",
             what, got.text().c_str(), want.text().c_str());
    }
    const std::vector<Qubit> qs(a.begin(), a.end());
    if (qs.size() > 5) {
      return;
    }
    const auto x = matOf(got, qs);
    const auto y = matOf(want, qs);
    if (!x || !y || !(dn::dist(x->a, y->a) < 1e-7)) {
      c.fail(id + "/operation", "%s means something else: %s, expected %s",
             what, got.text().c_str(), want.text().c_str());
    }
  }
  circ::GateInst mapped(circ::GateInst g, const std::vector<Qubit> &ps) const {
    for (auto &t : g.targets) {
      t = ps[t];
    }
    qc::Controls cs;
    for (const auto &k : g.controls) {
      cs.emplace(ps[k.qubit], k.type);
    }
    g.controls = cs;
    return g;
  }
  Rec recOf(const circ::GateInst &g) const {
    Rec r;
    r.t = g.t;
    r.tg = g.targets;
    for (const auto &k : g.controls) {
      r.ct.emplace_back(k.qubit, k.type == qc::Control::Type::Pos);
    }
    for (const double p : g.p) {
      r.par.push_back({p, false, {}});
    }
    return r;
  }
  qc::SymbolOrNumber symbolic(u64 r, Param &p) const {
    p = {};
    if (r % 4 == 0) {
      p.num = gt::ang(mix(r));
      return p.num;
    }
    p.sym = true;
    qc::Symbolic e;
    const double k0 = r % 2 == 0 ? 1 : gt::ang(mix(r + 1));
    const auto v0 = (r >> 4) % 3;
    e += sym::Term<qc::fp>(variables()[v0], k0);
    p.terms.emplace_back(int(v0), k0);
    if ((r >> 8) % 3 == 0) {
      const auto v1 = (v0 + 1 + (r >> 12) % 2) % 3;
      const double k1 = gt::ang(mix(r + 2)) + 0.1;
      e += sym::Term<qc::fp>(variables()[v1], k1);
      p.terms.emplace_back(int(v1), k1);
    }
    if ((r >> 10) % 3 == 0) {
      p.num = gt::ang(mix(r + 3));
      e.setConst(p.num);
    }
    std::sort(p.terms.begin(), p.terms.end());
    // what was stored is what the expression says
    const auto back = readParam(qc::SymbolOrNumber{e});
    p = back;
    return e;
  }

  void pendingCheckOther(std::size_t s, const char *what) {
    const auto o = 1 - s;
    if (sl[o].q) {
      compare(readState(*sl[o].q), sl[o].m,
              sim::fmt("the other circuit after %s", what).c_str());
    }
  }

  // ------------------------------------------------------------ steps
  void step(const Step &st) {
    const std::size_t s = st.at(0) % 2;
    if (st.op == "fail") {
      failAt = 1 + st.at(0) % 40;
      failLen = st.at(1) % 5 == 0 ? 3 : 1;
      return;
    }
    auto &x = sl[s];
    if (!x.q) {
      x.q = std::make_unique<qc::QuantumComputation>(0, 0, 7);
      x.m = readState(*x.q);
    }
    State &m = x.m;
    State w = m;
    const auto ps = phys(m);
    const auto &op = st.op;
    if (op == "qreg" || op == "areg") {
      const std::size_t n = st.at(1) % 8 == 7 ? 0 : 1 + st.at(1) % 3;
      if (m.in.size() + n > MAXQ) {
        return;
      }
      const std::string nm = RNAMES[st.at(2) % 7];
      const bool anc = op == "areg";
      const bool rej = n == 0 || m.nameUsed(nm) || (!anc && m.na != 0);
      Qubit p = m.in.empty() ? 0 : m.in.rbegin()->first + 1;
      if (!rej) {
        (anc ? w.a : w.q)[nm] = {p, n};
        for (const auto l : m.freeLabels(n)) {
          w.in[p] = l;
          w.out[p] = l;
          w.anc[l] = anc;
          p++;
        }
        (anc ? w.na : w.nq) += n;
        // outputs must stay distinct: only use if the labels are free there
        for (const auto l : m.freeLabels(n)) {
          if (m.outVal(l)) {
            return;
          }
        }
      }
      edit(
          s, sim::fmt("%s(%zu,%s)", op.c_str(), n, nm.c_str()).c_str(),
          [&](auto &q) {
            const auto &r =
                anc ? q.addAncillaryRegister(n, nm) : q.addQubitRegister(n, nm);
            NoFault nf;
            if (r.getSize() != n || r.getName() != nm) {
              c.fail(id + "/register-returned", "%s", nm.c_str());
            }
          },
          w, rej, false);
      return;
    }
    if (op == "creg") {
      const std::size_t n = st.at(1) % 8 == 7 ? 0 : 1 + st.at(1) % 3;
      if (m.nc + n > MAXB) {
        return;
      }
      const std::string nm = CNAMES[st.at(2) % 4];
      const bool rej = n == 0 || m.c.count(nm) != 0;
      if (!rej) {
        w.c[nm] = {m.nc, n};
        w.nc += n;
      }
      edit(
          s, sim::fmt("creg(%zu,%s)", n, nm.c_str()).c_str(),
          [&](auto &q) { q.addClassicalRegister(n, nm); }, w, rej, true);
      return;
    }
    if (op == "rmq") {
      Qubit l = 0;
      bool rej = false;
      if (st.at(1) % 8 == 0 || m.in.empty()) {
        l = missingLabel(m, st.at(2));
        rej = true;
      } else {
        std::vector<Qubit> cand;
        for (const auto &[p, k] : m.in) {
          if (m.idle(p)) {
            cand.push_back(k);
          }
        }
        if (cand.empty()) {
          return;
        }
        l = cand[st.at(2) % cand.size()];
      }
      std::pair<Qubit, std::optional<Qubit>> want{};
      if (!rej) {
        for (const auto &[p, k] : m.in) {
          if (k == l) {
            want.first = p;
          }
        }
        if (m.out.count(want.first) != 0) {
          want.second = m.out.at(want.first);
        }
        w.in.erase(want.first);
        w.out.erase(want.first);
        (m.anc.at(l) ? w.na : w.nq)--;
        w.anc.erase(l);
        w.garb.erase(l);
        Qubit top = 0;
        for (const auto &[p, k] : w.in) {
          top = std::max<Qubit>(top, k + 1);
        }
        // flags beyond the last label disappear
        while (!w.garb.empty() && *w.garb.rbegin() >= top) {
          w.garb.erase(*w.garb.rbegin());
        }
      }
      edit(
          s, sim::fmt("removeQubit(%u)", unsigned(l)).c_str(),
          [&](auto &q) {
            const auto r = q.removeQubit(l);
            NoFault nf;
            if (r != want) {
              c.fail(id + "/removed-qubit", "removeQubit(%u) returned %u",
                     unsigned(l), unsigned(r.first));
            }
          },
          w, rej, false, true);
      return;
    }
    if (op == "addq") {
      const auto l = static_cast<Qubit>(st.at(1) % (m.nq + 2));
      const auto p = static_cast<Qubit>(st.at(2) % 12);
      const bool rej = l > m.nq || m.in.count(p) != 0;
      if (!rej && m.in.size() >= MAXQ) {
        return;
      }
      std::optional<Qubit> o;
      if (!rej) {
        if (m.label(l)) {
          for (auto *mm : {&w.in, &w.out}) {
            for (auto &[pp, k] : *mm) {
              if (k >= l) {
                k++;
              }
            }
          }
          std::map<Qubit, bool> na;
          for (const auto &[k, f] : m.anc) {
            na[k >= l ? k + 1 : k] = f;
          }
          w.anc = na;
          std::set<Qubit> ng;
          for (const auto k : m.garb) {
            ng.insert(k >= l ? k + 1 : k);
          }
          w.garb = ng;
        }
        w.in[p] = l;
        w.anc[l] = false;
        w.nq++;
        if (st.at(3) % 3 != 0) {
          o = w.outVal(l) ? static_cast<Qubit>(20 + st.at(3) % 5) : l;
          if (w.outVal(*o)) {
            o.reset();
          }
        }
        if (o) {
          w.out[p] = *o;
        }
      }
      edit(
          s,
          sim::fmt("addQubit(%u,%u,%d)", unsigned(l), unsigned(p),
                   o ? int(*o) : -1)
              .c_str(),
          [&](auto &q) { q.addQubit(l, p, o); }, w, rej, false, true);
      return;
    }
    if (op == "addanc") {
      const auto p = static_cast<Qubit>(st.at(1) % 12);
      const bool rej = m.in.count(p) != 0;
      if (!rej && m.in.size() >= MAXQ) {
        return;
      }
      const auto l = m.freeLabels(1)[0];
      std::optional<Qubit> o;
      if (!rej) {
        if (st.at(2) % 2 == 0) {
          o = m.outVal(l) ? static_cast<Qubit>(30 + st.at(2) % 5) : l;
          if (m.outVal(*o)) {
            o.reset();
          }
        }
        w.in[p] = l;
        w.anc[l] = true;
        w.na++;
        if (o) {
          w.out[p] = *o;
        } else {
          w.garb.insert(l);
        }
      }
      edit(
          s,
          sim::fmt("addAncillaryQubit(%u,%d)", unsigned(p), o ? int(*o) : -1)
              .c_str(),
          [&](auto &q) { q.addAncillaryQubit(p, o); }, w, rej, false, true);
      return;
    }
    if (op == "flag") { // ancillary / garbage, single or range
      const bool anc = st.at(1) % 2 == 0;
      const auto lo = static_cast<Qubit>(st.at(2) % (MAXQ + 2));
      const auto hi =
          st.at(3) % 2 == 0 ? lo : static_cast<Qubit>(lo + (st.at(3) / 2) % 4);
      bool rej = false;
      for (Qubit l = lo; l <= hi; l++) {
        rej = rej || !m.label(l);
      }
      if (!rej) {
        for (Qubit l = lo; l <= hi; l++) {
          if (anc) {
            if (!w.anc[l]) {
              w.anc[l] = true;
              w.nq--;
              w.na++;
            }
          } else {
            w.garb.insert(l);
            for (auto it = w.out.begin(); it != w.out.end();) {
              it = it->second == l ? w.out.erase(it) : std::next(it);
            }
          }
        }
      }
      edit(
          s,
          sim::fmt("%s(%u..%u)", anc ? "setAncillary" : "setGarbage",
                   unsigned(lo), unsigned(hi))
              .c_str(),
          [&](auto &q) {
            if (lo == hi) {
              anc ? q.setLogicalQubitAncillary(lo)
                  : q.setLogicalQubitGarbage(lo);
            } else {
              anc ? q.setLogicalQubitsAncillary(lo, hi)
                  : q.setLogicalQubitsGarbage(lo, hi);
            }
          },
          w, rej, true);
      return;
    }
    if (op == "unify") {
      const std::string nm = RNAMES[st.at(1) % 7];
      const bool rej =
          m.in.empty() ||
          m.in.rbegin()->first - m.in.begin()->first + 1 != m.in.size();
      if (!rej) {
        w.nq += w.na;
        w.na = 0;
        for (auto &[l, f] : w.anc) {
          f = false;
        }
        w.a.clear();
        w.q = {{nm, {m.in.begin()->first, m.in.size()}}};
      }
      edit(
          s, sim::fmt("unify(%s)", nm.c_str()).c_str(),
          [&](auto &q) { q.unifyQuantumRegisters(nm); }, w, rej, false);
      return;
    }
    if (op == "gate" || op == "push" || op == "ins" || op == "rep") {
      if (ps.empty() || (m.ops.size() >= MAXOPS && op != "rep")) {
        return;
      }
      auto g = mapped(
          circ::decode(st.at(1), st.at(2), st.at(3), st.at(4), ps.size(), 2),
          ps);
      const bool rej = op == "gate" && st.at(5) % 8 == 0;
      if (rej) { // one of the qubits does not exist
        const auto bad = missing(m, st.at(6));
        if (g.controls.empty() || st.at(6) % 2 == 0) {
          g.targets.back() = bad;
        } else {
          g.controls.erase(g.controls.begin());
          g.controls.emplace(bad);
        }
      }
      Rec r = recOf(g);
      if (op == "gate" || op == "push") {
        w.ops.push_back(r);
        edit(
            s, ("append " + r.text()).c_str(),
            [&](auto &q) {
              if (op == "gate") {
                circ::viaApi(q, g);
              } else if (st.at(5) % 2 == 0) {
                q.template emplace_back<qc::StandardOperation>(
                    g.controls, g.targets, g.t, g.p);
              } else {
                q.push_back(
                    qc::StandardOperation(g.controls, g.targets, g.t, g.p));
              }
            },
            w, rej, true, false, true);
        if (x.m.ops.size() == w.ops.size() && !rej) {
          // all but the appended one are untouched
          checkPrefix(x.m.ops, w.ops, w.ops.size() - 1, "append");
          sameUnitary(x.m.ops.back(), r, "an appended gate");
          if (x.m.ops.back().name != qc::toString(x.m.ops.back().t)) {
            c.fail(id + "/operation", "an appended %s calls itself %s",
                   qc::toString(x.m.ops.back().t).c_str(),
                   x.m.ops.back().name.c_str());
          }
        }
        return;
      }
      if (op == "rep" && m.ops.empty()) {
        return;
      }
      const auto at = st.at(5) % (m.ops.size() + (op == "ins" ? 1 : 0));
      // canonical form of the gate
      r = readOp(*circ::opOf(g));
      sameUnitary(r, recOf(g), "a constructed gate");
      if (op == "ins") {
        w.ops.insert(w.ops.begin() + static_cast<std::ptrdiff_t>(at), r);
      } else {
        w.ops[at] = r;
      }
      edit(
          s, (op + " " + r.text()).c_str(),
          [&](auto &q) {
            auto o = circ::opOf(g);
            if (op == "ins") {
              q.insert(q.cbegin() + static_cast<std::ptrdiff_t>(at),
                       std::move(o));
            } else {
              q.at(at) = std::move(o);
            }
          },
          w, false, true);
      return;
    }
    if (op == "sgate") {
      if (ps.empty() || m.ops.size() >= MAXOPS) {
        return;
      }
      static const std::vector<int> P{13, 14, 15, 16, 17, 18,
                                      26, 27, 28, 29, 30, 31};
      auto g = mapped(
          circ::decode(st.at(1), st.at(2), st.at(3), 0, ps.size(), 2, &P), ps);
      const bool rej = st.at(5) % 10 == 0;
      if (rej) {
        g.targets.back() = missing(m, st.at(6));
      }
      Rec r = recOf(g);
      std::vector<qc::SymbolOrNumber> par;
      bool any = false;
      for (std::size_t k = 0; k < g.p.size(); k++) {
        Param p;
        par.push_back(symbolic(mix(st.at(4) + k), p));
        r.par[k] = p;
        any = any || p.sym;
      }
      w.ops.push_back(r);
      if (any) {
        usedV(r, w.vars);
      }
      edit(
          s, ("append symbolic " + r.text()).c_str(),
          [&](auto &q) { symApi(q, g, par); }, w, rej, true, false, true);
      if (x.m.ops.size() == w.ops.size() && !rej) {
        checkPrefix(x.m.ops, w.ops, w.ops.size() - 1, "append");
        sameUnitary(x.m.ops.back(), r, "an appended symbolic gate");
        std::set<int> v0;
        std::set<int> v1;
        usedV(r, v0);
        usedV(x.m.ops.back(), v1);
        if (v0 != v1 || isSym(r) != isSym(x.m.ops.back())) {
          c.fail(id + "/symbols", "appended %s, stored %s", r.text().c_str(),
                 x.m.ops.back().text().c_str());
        }
      }
      return;
    }
    if (op == "meas" || op == "reset" || op == "barrier") {
      if (m.ops.size() >= MAXOPS || (ps.empty() && op != "barrier")) {
        return;
      }
      std::vector<Qubit> ts;
      bool rej = false;
      const std::size_t n = 1 + (st.at(1) % 3 == 0 ? st.at(2) % 3 : 0);
      if (!ps.empty()) {
        const auto o = circ::permutation(st.at(3), ps.size());
        for (std::size_t k = 0; k < std::min(n, ps.size()); k++) {
          ts.push_back(ps[o[k]]);
        }
      }
      if (st.at(4) % 8 == 0 && !ts.empty()) {
        ts.back() = missing(m, st.at(5));
        rej = true;
      }
      std::vector<u64> bs;
      Rec r;
      if (op == "meas") {
        if (m.nc == 0 && !rej) {
          return;
        }
        for (std::size_t k = 0; k < ts.size(); k++) {
          bs.push_back(m.nc == 0 ? 0 : (st.at(5) + k) % m.nc);
        }
        if (st.at(4) % 8 == 1) {
          bs.back() = m.nc + st.at(5) % 3;
          rej = true;
        }
        const bool uneven = st.at(4) % 16 == 2 && ts.size() > 1;
        if (uneven) {
          bs.pop_back();
          rej = true;
        }
        r.kind = Rec::NONU;
        r.t = qc::Measure;
        r.bits = bs;
      } else if (op == "reset") {
        r.kind = Rec::NONU;
        r.t = qc::Reset;
      } else {
        r.t = qc::Barrier;
      }
      const bool all = op == "barrier" && (st.at(1) % 4 == 1 || ts.empty());
      if (all) {
        ts = ps;
        rej = false;
      }
      r.tg = ts;
      if (op == "reset") {
        std::sort(r.tg.begin(), r.tg.end());
      }
      w.ops.push_back(r);
      edit(
          s, r.text().c_str(),
          [&](auto &q) {
            if (op == "meas") {
              if (ts.size() == 1 && bs.size() == 1) {
                q.measure(ts[0], bs[0]);
              } else {
                q.measure(ts, std::vector<qc::Bit>(bs.begin(), bs.end()));
              }
            } else if (op == "reset") {
              ts.size() == 1 ? q.reset(ts[0]) : q.reset(ts);
            } else if (all) {
              q.barrier();
            } else {
              ts.size() == 1 ? q.barrier(ts[0]) : q.barrier(ts);
            }
          },
          w, rej, true);
      return;
    }
    if (op == "measall") {
      const bool add = st.at(1) % 2 == 0;
      if (m.ops.size() + m.in.size() > MAXOPS || m.in.empty() ||
          (add && m.nc + m.in.size() > MAXB)) {
        return;
      }
      const auto top = m.in.rbegin()->first;
      const bool rej = add ? m.c.count("meas") != 0 : m.nc <= top;
      u64 bit = 0;
      if (!rej) {
        if (add) {
          w.c["meas"] = {m.nc, m.in.size()};
          w.nc += m.in.size();
          bit = w.nc;
        }
        Rec b;
        b.t = qc::Barrier;
        b.tg = ps;
        w.ops.push_back(b);
        for (auto it = ps.rbegin(); it != ps.rend(); ++it) {
          Rec r;
          r.kind = Rec::NONU;
          r.t = qc::Measure;
          r.tg = {*it};
          r.bits = {add ? --bit : *it};
          w.ops.push_back(r);
        }
      }
      edit(
          s, add ? "measureAll" : "measureAll(false)",
          [&](auto &q) { q.measureAll(add); }, w, rej, false);
      return;
    }
    if (op == "cc") {
      if (ps.empty() || m.ops.size() >= MAXOPS || m.nc == 0) {
        return;
      }
      static const std::vector<int> ONE{1, 2,  3,  4,  5,  6, 7,
                                        8, 13, 15, 16, 17, 18};
      auto g = mapped(circ::decode(st.at(1), st.at(2), st.at(3), st.at(4),
                                   ps.size(), 2, &ONE),
                      ps);
      bool rej = false;
      Rec in = readOp(*circ::opOf(g));
      Rec r;
      r.kind = Rec::CC;
      r.t = qc::ClassicControlled;
      const bool bit = st.at(5) % 2 == 0;
      u64 v = st.at(6) % 6;
      int cmp = static_cast<int>((st.at(6) / 8) % 6);
      std::optional<qc::ClassicalRegister> reg;
      if (bit) {
        r.cstart = st.at(7) % m.nc;
        r.csize = 1;
        if (st.at(5) % 16 == 2) {
          r.cstart = m.nc + st.at(7) % 2;
        }
        rej = r.cstart >= m.nc || v > 1 || cmp > 1;
        r.cval = cmp == 1 ? 1 - v : v;
        r.cmp = 0;
      } else {
        auto it = m.c.begin();
        std::advance(it, st.at(7) % m.c.size());
        u64 size = it->second.size;
        if (st.at(5) % 16 == 1) {
          size = m.nc + 1;
          rej = true;
        }
        reg.emplace(it->second.start, size, it->first);
        r.isReg = true;
        r.cstart = it->second.start;
        r.csize = it->second.size;
        r.cval = v;
        r.cmp = cmp;
      }
      if (st.at(5) % 16 == 4) {
        g.targets.back() = missing(m, st.at(6));
        rej = true;
      }
      r.sub = {in};
      w.ops.push_back(r);
      edit(
          s, r.text().c_str(),
          [&](auto &q) {
            const auto k = static_cast<qc::ComparisonKind>(cmp);
            const auto t = g.targets[0];
            const std::size_t nctl = g.controls.size();
            if (bit) {
              nctl == 0   ? q.classicControlled(g.t, t, r.cstart, v, k, g.p)
              : nctl == 1 ? q.classicControlled(g.t, t, *g.controls.begin(),
                                                r.cstart, v, k, g.p)
                          : q.classicControlled(g.t, t, g.controls, r.cstart, v,
                                                k, g.p);
            } else {
              nctl == 0 ? q.classicControlled(g.t, t, *reg, v, k, g.p)
              : nctl == 1
                  ? q.classicControlled(g.t, t, *g.controls.begin(), *reg, v, k,
                                        g.p)
                  : q.classicControlled(g.t, t, g.controls, *reg, v, k, g.p);
            }
          },
          w, rej, true);
      return;
    }
    if (op == "appmeas") {
      u64 need = 0;
      for (const auto &[p, o] : m.out) {
        need = std::max<u64>(need, o + 1);
      }
      if (m.out.empty() || m.ops.size() + m.out.size() > MAXOPS ||
          need > MAXB) {
        return;
      }
      const std::string nm = CNAMES[st.at(1) % 4];
      const bool rej = m.nc != 0 && m.nc < need && m.c.count(nm) != 0;
      if (!rej) {
        if (m.nc < need) {
          w.c[nm] = {m.nc, need - m.nc};
          w.nc = need;
        }
        Rec b;
        b.t = qc::Barrier;
        b.tg = ps;
        w.ops.push_back(b);
        for (const auto &[p, o] : m.out) {
          Rec r;
          r.kind = Rec::NONU;
          r.t = qc::Measure;
          r.tg = {p};
          r.bits = {o};
          w.ops.push_back(r);
        }
      }
      edit(
          s, sim::fmt("appendMeasurements(%s)", nm.c_str()).c_str(),
          [&](auto &q) {
            q.appendMeasurementsAccordingToOutputPermutation(nm);
          },
          w, rej, false);
      return;
    }
    if (op == "erase" || op == "pop" || op == "clear" || op == "rev") {
      if (m.ops.empty()) {
        return;
      }
      const auto i = static_cast<std::ptrdiff_t>(st.at(1) % m.ops.size());
      auto j = static_cast<std::ptrdiff_t>(m.ops.size());
      if (op == "erase") {
        j = st.at(2) % 2 == 0
                ? i + 1
                : std::min<std::ptrdiff_t>(
                      i + 1 + static_cast<std::ptrdiff_t>(st.at(2) / 2 % 3), j);
        w.ops.erase(w.ops.begin() + i, w.ops.begin() + j);
      } else if (op == "pop") {
        w.ops.pop_back();
      } else if (op == "clear") {
        w.ops.clear();
      } else {
        std::reverse(w.ops.begin(), w.ops.end());
      }
      edit(
          s, op.c_str(),
          [&](auto &q) {
            if (op == "erase") {
              if (j == i + 1) {
                q.erase(q.cbegin() + i);
              } else {
                q.erase(q.cbegin() + i, q.cbegin() + j);
              }
            } else if (op == "pop") {
              q.pop_back();
            } else if (op == "clear") {
              q.clear();
            } else {
              q.reverse();
            }
          },
          w, false, true);
      return;
    }
    if (op == "group") { // wrap some operations into a compound operation
      if (m.ops.empty()) {
        return;
      }
      const auto i = st.at(1) % m.ops.size();
      const auto n = 1 + st.at(2) % std::min<std::size_t>(4, m.ops.size() - i);
      Rec r;
      r.kind = Rec::COMP;
      r.t = qc::Compound;
      r.sub.assign(w.ops.begin() + static_cast<std::ptrdiff_t>(i),
                   w.ops.begin() + static_cast<std::ptrdiff_t>(i + n));
      w.ops.erase(w.ops.begin() + static_cast<std::ptrdiff_t>(i),
                  w.ops.begin() + static_cast<std::ptrdiff_t>(i + n));
      w.ops.insert(w.ops.begin() + static_cast<std::ptrdiff_t>(i), r);
      failAt = 0;
      edit(
          s, "group",
          [&](auto &q) {
            auto k = std::make_unique<qc::CompoundOperation>(st.at(3) % 2 == 0);
            for (std::size_t z = i; z < i + n; z++) {
              if ((st.at(3) / 2) % 2 == 0) {
                k->emplace_back(std::move(q.at(z)));
              } else {
                k->emplace_back(q.at(z)->clone());
              }
            }
            q.erase(q.cbegin() + static_cast<std::ptrdiff_t>(i),
                    q.cbegin() + static_cast<std::ptrdiff_t>(i + n));
            q.insert(q.cbegin() + static_cast<std::ptrdiff_t>(i), std::move(k));
          },
          w, false, false);
      return;
    }
    if (op == "wrap") { // put a copy of an operation under classical control
      if (m.ops.empty() || m.nc == 0 || m.ops.size() >= MAXOPS) {
        return;
      }
      const auto i = st.at(1) % m.ops.size();
      if (hasNonU(m.ops[i]) || hasCC(m.ops[i])) {
        return;
      }
      Rec r;
      r.kind = Rec::CC;
      r.t = qc::ClassicControlled;
      r.sub = {m.ops[i]};
      auto it = m.c.begin();
      std::advance(it, st.at(2) % m.c.size());
      const bool bit = st.at(3) % 2 == 0;
      r.isReg = !bit;
      r.cstart = bit ? st.at(2) % m.nc : it->second.start;
      r.csize = bit ? 1 : it->second.size;
      r.cval = bit ? st.at(4) % 2 : st.at(4) % 6;
      r.cmp = bit ? 0 : static_cast<int>(st.at(5) % 6);
      const qc::ClassicalRegister reg(it->second.start, it->second.size,
                                      it->first);
      w.ops.push_back(r);
      edit(
          s, r.text().c_str(),
          [&](auto &q) {
            auto k = q.at(i)->clone();
            const auto cmp = static_cast<qc::ComparisonKind>(r.cmp);
            if (bit) {
              q.emplace_back(std::make_unique<qc::ClassicControlledOperation>(
                  std::move(k), r.cstart, r.cval, cmp));
            } else {
              q.emplace_back(std::make_unique<qc::ClassicControlledOperation>(
                  std::move(k), reg, r.cval, cmp));
            }
          },
          w, false, true);
      return;
    }
    if (op == "control") { // add or remove a control on one operation
      if (m.ops.empty() || ps.empty()) {
        return;
      }
      const auto i = st.at(1) % m.ops.size();
      const auto q = ps[st.at(2) % ps.size()];
      const bool pos = st.at(3) % 2 == 0;
      bool rej = false;
      if (hasEmpty(m.ops[i])) {
        return; // a control of nothing is not shown by the operation
      }
      if (!addCtl(w.ops[i], q, pos)) {
        rej = true;
      }
      edit(
          s, sim::fmt("addControl(%zu,%u)", i, unsigned(q)).c_str(),
          [&](auto &z) {
            z.at(i)->addControl(qc::Control{q, pos ? qc::Control::Type::Pos
                                                   : qc::Control::Type::Neg});
          },
          w, rej, true);
      if (!rej && x.m.ops[i] == w.ops[i] && st.at(4) % 2 == 0) {
        State back = x.m;
        back.ops[i] = m.ops[i];
        delCtl(back.ops[i], q, pos);
        edit(
            s, "removeControl",
            [&](auto &z) {
              z.at(i)->removeControl(qc::Control{
                  q, pos ? qc::Control::Type::Pos : qc::Control::Type::Neg});
            },
            back, false, true);
      }
      return;
    }
    if (op == "invert") {
      const bool rej = std::any_of(m.ops.begin(), m.ops.end(), hasNonU);
      std::set<Qubit> ls;
      std::set<Qubit> os;
      for (const auto &[p, l] : m.in) {
        ls.insert(l);
      }
      for (const auto &[p, l] : m.out) {
        os.insert(l);
      }
      if (!rej && m.in.size() == m.out.size()) {
        if (ls != os) {
          return;
        }
        std::swap(w.in, w.out);
      }
      w.phase = -m.phase;
      const auto before = m.ops;
      std::ostringstream err;
      auto *old = std::cerr.rdbuf(err.rdbuf());
      edit(
          s, "invert", [&](auto &q) { q.invert(); }, w, rej, true, false, true);
      std::cerr.rdbuf(old);
      if (!rej && !before.empty()) {
        // either everything is inverted or (failed allocation) nothing
        if (x.m.in == w.in && x.m.out == w.out && !(lastOom)) {
          for (std::size_t i = 0; i < before.size(); i++) {
            checkInverse(before[i], x.m.ops[before.size() - 1 - i]);
          }
        }
      }
      return;
    }
    if (op == "resetall") {
      State z;
      z.name = m.name;
      edit(s, "reset()", [&](auto &q) { q.reset(); }, z, false, true);
      return;
    }
    if (op == "phase") {
      double a = 0;
      bool rej = false;
      switch (st.at(1) % 8) {
      case 0:
        a = std::numeric_limits<double>::quiet_NaN();
        rej = true;
        break;
      case 1:
        a = std::numeric_limits<double>::infinity();
        rej = true;
        break;
      case 2:
        a = (st.at(2) % 2 == 0 ? 1e9 : -1e6) * gt::PI * 2 +
            gt::ang(mix(st.at(2)));
        break;
      case 3:
        a = -m.phase;
        break;
      default:
        a = gt::ang(mix(st.at(2)));
      }
      w.phase = m.phase + std::fmod(a, 2 * gt::PI);
      if (st.at(1) % 8 == 2) { // rounding of the huge angle itself
        w.phase = m.phase + std::remainder(a, 2 * gt::PI);
      }
      edit(
          s, sim::fmt("gphase(%.6g)", a).c_str(), [&](auto &q) { q.gphase(a); },
          w, rej, true);
      return;
    }
    if (op == "name") {
      w.name = sim::fmt("n%llu", (unsigned long long)(st.at(1) % 5));
      failAt = 0;
      edit(s, "setName", [&](auto &q) { q.setName(w.name); }, w, false, true);
      return;
    }
    if (op == "copy" || op == "assign" || op == "move") {
      auto &y = sl[1 - s];
      Out o = OK;
      if (op == "copy") {
        std::unique_ptr<qc::QuantumComputation> z;
        o = call("copy",
                 [&] { z = std::make_unique<qc::QuantumComputation>(*x.q); });
        if (o == OK) {
          y.q = std::move(z);
          y.m = m;
        }
      } else if (op == "assign") {
        if (!y.q || st.at(1) % 6 == 0) { // self assignment
          o = call("self assignment", [&] {
            auto &z = *x.q;
            *x.q = z;
          });
        } else {
          o = call("assign", [&] { *y.q = *x.q; });
          if (o == OK) {
            y.m = m;
          }
        }
      } else {
        failAt = 0;
        o = call("move", [&] {
          if (!y.q || st.at(1) % 2 == 0) {
            y.q = std::make_unique<qc::QuantumComputation>(std::move(*x.q));
          } else {
            *y.q = std::move(*x.q);
          }
        });
        y.m = m;
        // a moved-from circuit can be assigned to and destroyed
        if (st.at(1) % 3 == 0) {
          *x.q = *y.q;
        } else {
          x.q = std::make_unique<qc::QuantumComputation>(0, 0, 7);
          x.m = readState(*x.q);
        }
      }
      if (o == REJECT) {
        c.fail(id + "/refused", "%s was refused", op.c_str());
      }
      for (auto &z : sl) {
        if (z.q) {
          const auto got = readState(*z.q);
          compare(got, z.m, op.c_str());
          invariants(*z.q, got, op.c_str());
        }
      }
      if (o == OK && sl[0].q && sl[1].q && op != "move" &&
          (op == "copy" || st.at(1) % 6 != 0)) {
        NoFault nf;
        if (!(*sl[0].q == *sl[1].q)) {
          c.fail(id + "/equality", "a copy differs from its original");
        }
      }
      return;
    }
    if (op == "inst") {
      sym::VariableAssignment as;
      std::set<int> got;
      for (int v = 0; v < 3; v++) {
        if (((st.at(1) >> v) & 1U) != 0 || st.at(2) % 2 == 0) {
          as[variables()[static_cast<std::size_t>(v)]] = VALS[v];
          got.insert(v);
        }
      }
      std::set<int> used;
      for (const auto &r : m.ops) {
        usedV(r, used);
      }
      const bool rej =
          !std::includes(got.begin(), got.end(), used.begin(), used.end());
      for (const int v : got) {
        w.vars.erase(v);
      }
      const auto before = m.ops;
      if (st.at(3) % 2 == 0) {
        edit(
            s, "instantiateInplace", [&](auto &q) { q.instantiateInplace(as); },
            w, rej, true, false, true);
        if (!rej && !lastOom) {
          checkInst(before, x.m.ops);
          NoFault nf;
          if (!x.q->isVariableFree()) {
            c.fail(id + "/symbols", "symbols are left after instantiation");
          }
        }
      } else {
        std::unique_ptr<qc::QuantumComputation> z;
        const Out o = call("instantiate", [&] {
          z = std::make_unique<qc::QuantumComputation>(x.q->instantiate(as));
        });
        if (o != OOM && rej != (o == REJECT)) {
          c.fail(id + (rej ? "/accepted" : "/refused"), "instantiate");
        }
        compare(readState(*x.q), m, "the source of instantiate");
        if (o == OK) {
          auto zs = readState(*z);
          State e = w;
          e.ops = zs.ops;
          compare(zs, e, "instantiate");
          checkInst(before, zs.ops);
          sl[1 - s].q = std::move(z);
          sl[1 - s].m = zs;
        }
      }
      return;
    }
    if (op == "setop") { // assign one operation to another of its class
      if (m.ops.empty()) {
        return;
      }
      const auto i = st.at(1) % m.ops.size();
      std::vector<std::size_t> same;
      for (std::size_t k = 0; k < m.ops.size(); k++) {
        const auto &a = *x.q->at(i);
        const auto &b = *x.q->at(k);
        if (typeid(a) == typeid(b)) {
          same.push_back(k);
        }
      }
      const auto j = same[st.at(2) % same.size()];
      w.ops[i] = m.ops[j];
      failAt = 0;
      edit(
          s, fmt("operation %zu = operation %zu", i, j).c_str(),
          [&](auto &q) {
            auto *a = q.at(i).get();
            auto *b = q.at(j).get();
            auto as = [&](auto *t) {
              using T = std::remove_pointer_t<decltype(t)>;
              auto *to = dynamic_cast<T *>(a);
              const auto *from = dynamic_cast<const T *>(b);
              if (to != nullptr && from != nullptr) {
                *to = *from;
                return true;
              }
              return false;
            };
            (void)(as(static_cast<qc::CompoundOperation *>(nullptr)) ||
                   as(static_cast<qc::ClassicControlledOperation *>(nullptr)) ||
                   as(static_cast<qc::NonUnitaryOperation *>(nullptr)) ||
                   as(static_cast<qc::SymbolicOperation *>(nullptr)) ||
                   as(static_cast<qc::StandardOperation *>(nullptr)));
          },
          w, false, false);
      return;
    }
    if (op == "asop") {
      std::unique_ptr<qc::Operation> o;
      failAt = 0;
      w.ops.clear();
      const auto before = m.ops;
      const bool comp = st.at(1) % 2 == 0;
      edit(
          s, comp ? "asCompoundOperation" : "asOperation",
          [&](auto &q) {
            if (comp) {
              o = q.asCompoundOperation();
            } else {
              o = q.asOperation();
            }
          },
          w, false, false);
      Rec want;
      if (comp || before.size() > 1) {
        want.kind = Rec::COMP;
        want.t = qc::Compound;
        want.sub = before;
      } else if (before.size() == 1) {
        want = before[0];
      }
      if ((o == nullptr) != (!comp && before.empty()) ||
          (o && !(readOp(*o) == want))) {
        c.fail(id + "/as-operation", "%s, expected %s",
               o ? readOp(*o).text().c_str() : "null", want.text().c_str());
      }
      if (o == nullptr) {
        return;
      }
      if (const auto *k = dynamic_cast<const qc::CompoundOperation *>(o.get());
          k != nullptr && st.at(2) % 2 == 0) {
        std::unique_ptr<qc::QuantumComputation> z;
        const Out r = call("fromCompoundOperation", [&] {
          z = std::make_unique<qc::QuantumComputation>(
              qc::QuantumComputation::fromCompoundOperation(*k));
        });
        if (r != OK) {
          c.fail(id + "/refused", "fromCompoundOperation");
        }
        std::set<Qubit> us;
        std::set<u64> bs;
        usedQ(want, us);
        usedB(want, bs);
        const std::size_t nq = us.empty() ? 1 : *us.rbegin() + 1U;
        const std::size_t nb = bs.empty() ? 1 : *bs.rbegin() + 1U;
        auto zs = readState(*z);
        State e = zs;
        e.ops = want.sub;
        e.nq = nq;
        e.na = 0;
        e.nc = nb;
        e.in.clear();
        e.anc.clear();
        e.garb.clear();
        for (Qubit p = 0; p < nq; p++) {
          e.in[p] = p;
          e.anc[p] = false;
        }
        e.out = e.in;
        compare(zs, e, "fromCompoundOperation");
        // variables of the operations are only known to the old circuit
        std::set<int> vs;
        usedV(want, vs);
        if (vs.empty()) {
          invariants(*z, zs, "fromCompoundOperation");
          if (nq <= MAXQ && nb <= MAXB) {
            sl[1 - s].q = std::move(z);
            sl[1 - s].m = zs;
          }
        }
      }
      if (st.at(3) % 2 == 0) {
        State v = x.m;
        v.ops = {want};
        edit(
            s, "append the taken operation",
            [&](auto &q) { q.emplace_back(std::move(o)); }, v, false, false);
      }
      return;
    }
    if (op == "strip") {
      const bool force = st.at(1) % 2 == 0;
      strip(s, force);
      return;
    }
    if (op == "iomap") {
      std::map<Qubit, Qubit> out;
      std::set<u64> bits;
      bool any = false;
      for (const auto &r : m.ops) {
        if (r.t != qc::Measure) {
          continue;
        }
        any = true;
        for (std::size_t k = 0; k < r.tg.size(); k++) {
          if (out.count(r.tg[k]) != 0) {
            continue;
          }
          if (!bits.insert(r.bits[k]).second) {
            return; // two qubits in one bit: no output permutation
          }
          out[r.tg[k]] = static_cast<Qubit>(r.bits[k]);
        }
      }
      if (any) {
        w.out = out;
      }
      w.garb.clear();
      for (const auto &[p, l] : m.in) {
        if (!w.outVal(l)) {
          w.garb.insert(l);
        }
        if (m.anc.at(l) && m.idle(p)) {
          w.garb.insert(l);
          for (auto it = w.out.begin(); it != w.out.end();) {
            it = it->second == l ? w.out.erase(it) : std::next(it);
          }
        }
      }
      edit(
          s, "initializeIOMapping", [&](auto &q) { q.initializeIOMapping(); },
          w, false, false);
      return;
    }
    if (op == "reorder") {
      const auto before = m.ops;
      edit(
          s, "reorderOperations", [&](auto &q) { q.reorderOperations(); }, w,
          false, true, false, true);
      checkReordered(before, x.m.ops);
      return;
    }
    if (op == "layout") { // direct edits of the two permutations
      if (ps.size() < 2) {
        return;
      }
      const auto p0 = ps[st.at(1) % ps.size()];
      const auto p1 = ps[st.at(2) % ps.size()];
      const bool in = st.at(3) % 2 == 0;
      if (!in && (m.out.count(p0) == 0 || m.out.count(p1) == 0)) {
        return;
      }
      auto &mm = in ? w.in : w.out;
      std::swap(mm[p0], mm[p1]);
      edit(
          s, in ? "swap in layout" : "swap in output permutation",
          [&](auto &q) {
            auto &z = in ? q.initialLayout : q.outputPermutation;
            std::swap(z.at(p0), z.at(p1));
          },
          w, false, true);
      return;
    }
    if (op == "query") {
      query(s, st);
      return;
    }
  }

  bool lastOom = false;

  static bool addCtl(Rec &r, Qubit q, bool pos) {
    if (r.kind == Rec::NONU) {
      return false;
    }
    if (r.kind == Rec::STD) {
      if (touches(r, q)) {
        return false;
      }
      r.ct.emplace_back(q, pos);
      std::sort(r.ct.begin(), r.ct.end());
      return true;
    }
    for (auto &z : r.sub) {
      if (!addCtl(z, q, pos)) {
        return false;
      }
    }
    return true;
  }
  static void delCtl(Rec &r, Qubit q, bool pos) {
    r.ct.erase(std::remove(r.ct.begin(), r.ct.end(), std::make_pair(q, pos)),
               r.ct.end());
    for (auto &z : r.sub) {
      delCtl(z, q, pos);
    }
  }
  void checkPrefix(const std::vector<Rec> &got, const std::vector<Rec> &want,
                   std::size_t n, const char *what) {
    for (std::size_t i = 0; i < n; i++) {
      if (!(got[i] == want[i])) {
        c.fail(id + "/operation", "%s changed operation %zu to %s", what, i,
               got[i].text().c_str());
      }
    }
  }
  void checkInverse(const Rec &a, const Rec &b) {
    if (a.kind != b.kind) {
      c.fail(id + "/inverse", "%s became %s", a.text().c_str(),
             b.text().c_str());
    }
    if (a.kind == Rec::CC) {
      Rec x = b;
      x.sub = a.sub;
      if (!(x == a)) {
        c.fail(id + "/inverse", "%s became %s", a.text().c_str(),
               b.text().c_str());
      }
      checkInverse(a.sub[0], b.sub[0]);
      return;
    }
    if (a.kind == Rec::COMP) {
      if (a.sub.size() != b.sub.size()) {
        c.fail(id + "/inverse", "%s became %s", a.text().c_str(),
               b.text().c_str());
      }
      for (std::size_t i = 0; i < a.sub.size(); i++) {
        checkInverse(a.sub[i], b.sub[a.sub.size() - 1 - i]);
      }
      return;
    }
    std::set<Qubit> ua;
    std::set<Qubit> ub;
    usedQ(a, ua);
    usedQ(b, ub);
    if (ua != ub || ua.size() > 5 || b.name != qc::toString(b.t)) {
      if (ua == ub && b.name == qc::toString(b.t)) {
        return;
      }
      c.fail(id + "/inverse", "%s became %s (named %s)", a.text().c_str(),
             b.text().c_str(), b.name.c_str());
    }
    const std::vector<Qubit> qs(ua.begin(), ua.end());
    const auto x = matOf(a, qs);
    const auto y = matOf(b, qs);
    if (!x || !y || !(dn::dist(dn::mul(*y, *x).a, Mat::id(x->d).a) < 1e-7)) {
      c.fail(id + "/inverse", "%s became %s", a.text().c_str(),
             b.text().c_str());
    }
  }
  void checkInst(const std::vector<Rec> &before, const std::vector<Rec> &now) {
    if (before.size() != now.size()) {
      c.fail(id + "/operation-count", "instantiation");
    }
    for (std::size_t i = 0; i < now.size(); i++) {
      const auto &a = before[i];
      const auto &b = now[i];
      if (isSym(b)) {
        c.fail(id + "/symbols", "%s is still symbolic", b.text().c_str());
      }
      if (a.kind != b.kind || a.sub.size() != b.sub.size()) {
        c.fail(id + "/operation", "%s became %s", a.text().c_str(),
               b.text().c_str());
      }
      if (a.kind == Rec::COMP || a.kind == Rec::CC) {
        checkInst(a.sub, b.sub);
        Rec x = b;
        x.sub = a.sub;
        if (!(x == a)) {
          c.fail(id + "/operation", "%s became %s", a.text().c_str(),
                 b.text().c_str());
        }
      } else if (isSym(a)) {
        sameUnitary(b, a, "an instantiated gate");
        if (b.name != qc::toString(b.t)) {
          c.fail(id + "/operation", "an instantiated %s calls itself %s",
                 qc::toString(b.t).c_str(), b.name.c_str());
        }
      } else if (!(a == b)) {
        c.fail(id + "/operation", "%s became %s", a.text().c_str(),
               b.text().c_str());
      }
    }
  }
  void checkReordered(const std::vector<Rec> &a, const std::vector<Rec> &b) {
    std::vector<bool> taken(a.size(), false);
    // match every new operation with the first equal old one not yet taken
    std::vector<std::size_t> pos;
    for (const auto &r : b) {
      std::size_t k = 0;
      while (k < a.size() && (taken[k] || !(a[k] == r))) {
        k++;
      }
      if (k == a.size()) {
        c.fail(id + "/reorder", "%s appeared", r.text().c_str());
      }
      taken[k] = true;
      pos.push_back(k);
    }
    if (a.size() != b.size()) {
      c.fail(id + "/reorder", "%zu operations became %zu", a.size(), b.size());
    }
    for (std::size_t i = 0; i < b.size(); i++) {
      std::set<Qubit> qi;
      std::set<u64> bi;
      usedQ(b[i], qi);
      usedB(b[i], bi);
      for (std::size_t j = i + 1; j < b.size(); j++) {
        if (pos[i] < pos[j]) {
          continue;
        }
        std::set<Qubit> qj;
        std::set<u64> bj;
        usedQ(b[j], qj);
        usedB(b[j], bj);
        const bool shared =
            std::any_of(qi.begin(), qi.end(),
                        [&](Qubit q) { return qj.count(q) != 0; }) ||
            std::any_of(bi.begin(), bi.end(),
                        [&](u64 q) { return bj.count(q) != 0; });
        if (shared) {
          c.fail(id + "/reorder", "%s moved before %s", b[i].text().c_str(),
                 b[j].text().c_str());
        }
      }
    }
  }
  void strip(std::size_t s, bool force) {
    auto &x = sl[s];
    const State m = x.m;
    State w = m;
    bool identity = true;
    for (const auto &[p, o] : m.out) {
      identity = identity && m.in.at(p) == o;
    }
    // which qubits disappear (from the highest physical index downwards)
    auto predict = [&](const State *got) {
      w = m;
      for (auto it = m.in.rbegin(); it != m.in.rend(); ++it) {
        const auto p = it->first;
        if (!m.idle(p)) {
          continue;
        }
        if (!force && w.out.count(p) != 0) {
          continue;
        }
        // labels that are also outputs stay; which labels these are once output
        // values have been renumbered is not specified
        if (got != nullptr ? got->in.count(p) != 0
                           : !force && w.outVal(w.in.at(p))) {
          continue;
        }
        const auto l = w.in.at(p);
        (w.anc.at(l) ? w.na : w.nq)--;
        w.in.erase(p);
        w.out.erase(p);
        std::map<Qubit, bool> na;
        for (const auto &[k, f] : w.anc) {
          if (k != l) {
            na[k > l ? k - 1 : k] = f;
          }
        }
        w.anc = na;
        for (auto &[pp, k] : w.in) {
          if (k > l) {
            k--;
          }
        }
        if (identity) {
          for (auto &[pp, k] : w.out) {
            if (k > l) {
              k--;
            }
          }
          std::set<Qubit> ng;
          for (const auto k : w.garb) {
            if (k != l) {
              ng.insert(k > l ? k - 1 : k);
            }
          }
          w.garb = ng;
        }
      }
    };
    predict(nullptr);
    // without the renumbering: outputs keep their order
    edit(
        s, force ? "stripIdleQubits(true)" : "stripIdleQubits",
        [&](auto &q) {
          q.stripIdleQubits(force);
          NoFault nf;
          if (!identity) {
            const auto got = readState(q);
            if (!force) {
              predict(&got);
            }
            // the same qubits are outputs, in the same order of values
            std::vector<std::pair<Qubit, Qubit>> a;
            std::vector<std::pair<Qubit, Qubit>> b;
            for (const auto &[p, o] : m.out) {
              if (w.in.count(p) != 0) {
                a.emplace_back(o, p);
              }
            }
            for (const auto &[p, o] : got.out) {
              b.emplace_back(o, p);
            }
            std::sort(a.begin(), a.end());
            std::sort(b.begin(), b.end());
            bool same = a.size() == b.size();
            for (std::size_t i = 0; same && i < a.size(); i++) {
              same = a[i].second == b[i].second && b[i].first <= a[i].first;
            }
            if (!same) {
              c.fail(id + "/output-permutation",
                     "stripping changed the outputs to%s",
                     perm(got.out).c_str());
            }
            if (got.garb.size() > m.garb.size()) {
              c.fail(id + "/garbage-flags", "stripping added garbage");
            }
            w.out = got.out;
            w.garb = got.garb;
            w.anc = w.anc;
          }
        },
        w, false, false, true);
  }

  void symApi(qc::QuantumComputation &q, const circ::GateInst &g,
              const std::vector<qc::SymbolOrNumber> &p) {
    const auto &t = g.targets;
    const auto &k = g.controls;
    const std::size_t nc = k.size();
    const auto c0 = nc > 0 ? *k.begin() : qc::Control{0};
#define ONEP(T, f)                                                             \
  case qc::T:                                                                  \
    nc == 0   ? q.f(p[0], t[0])                                                \
    : nc == 1 ? q.c##f(p[0], c0, t[0])                                         \
              : q.mc##f(p[0], k, t[0]);                                        \
    return;
#define TWOP(T, f)                                                             \
  case qc::T:                                                                  \
    nc == 0   ? q.f(p[0], t[0], t[1])                                          \
    : nc == 1 ? q.c##f(p[0], c0, t[0], t[1])                                   \
              : q.mc##f(p[0], k, t[0], t[1]);                                  \
    return;
#define TWOPP(T, f)                                                            \
  case qc::T:                                                                  \
    nc == 0   ? q.f(p[0], p[1], t[0], t[1])                                    \
    : nc == 1 ? q.c##f(p[0], p[1], c0, t[0], t[1])                             \
              : q.mc##f(p[0], p[1], k, t[0], t[1]);                            \
    return;
    switch (g.t) {
      ONEP(P, p)
      ONEP(RX, rx)
      ONEP(RY, ry)
      ONEP(RZ, rz)
      TWOP(RXX, rxx)
      TWOP(RYY, ryy)
      TWOP(RZZ, rzz)
      TWOP(RZX, rzx)
      TWOPP(XXminusYY, xx_minus_yy)
      TWOPP(XXplusYY, xx_plus_yy)
    case qc::U2:
      nc == 0   ? q.u2(p[0], p[1], t[0])
      : nc == 1 ? q.cu2(p[0], p[1], c0, t[0])
                : q.mcu2(p[0], p[1], k, t[0]);
      return;
    default:
      nc == 0   ? q.u(p[0], p[1], p[2], t[0])
      : nc == 1 ? q.cu(p[0], p[1], p[2], c0, t[0])
                : q.mcu(p[0], p[1], p[2], k, t[0]);
    }
#undef ONEP
#undef TWOP
#undef TWOPP
  }

  void depthOf(const Rec &r, std::map<Qubit, std::size_t> &d) {
    if (r.kind == Rec::COMP || r.kind == Rec::CC) {
      for (const auto &z : r.sub) {
        depthOf(z, d);
      }
      return;
    }
    if (r.t == qc::Barrier) {
      return;
    }
    if (r.kind == Rec::NONU) {
      for (const auto q : r.tg) {
        d[q]++;
      }
      return;
    }
    std::set<Qubit> us;
    usedQ(r, us);
    std::size_t mx = 0;
    for (const auto q : us) {
      mx = std::max(mx, d[q]);
    }
    for (const auto q : us) {
      d[q] = mx + 1;
    }
  }
  // 0 no, 1 yes, 2 unspecified
  int dynamicOf(const Rec &r, std::set<Qubit> &measured) {
    if (r.kind == Rec::CC || r.t == qc::Reset) {
      return 1;
    }
    if (r.kind == Rec::COMP) {
      int k = 0;
      for (const auto &z : r.sub) {
        k = dynamicOf(z, measured);
        if (k != 0) {
          return k;
        }
      }
      return 0;
    }
    if (r.t == qc::Measure) {
      measured.insert(r.tg.begin(), r.tg.end());
      return 0;
    }
    std::set<Qubit> us;
    usedQ(r, us);
    for (const auto q : us) {
      if (measured.count(q) != 0) {
        return r.t == qc::Barrier ? 2 : 1;
      }
    }
    return 0;
  }
  void query(std::size_t s, const Step &st) {
    auto &x = sl[s];
    const State &m = x.m;
    auto &q = *x.q;
    std::string bad;
    auto want = [&](const char *what, bool ok) {
      if (!ok && bad.empty()) {
        bad = what;
      }
    };
    const Out o = call("queries", [&] {
      want("getNops", q.getNops() == m.ops.size());
      std::size_t ind = 0;
      for (const auto &r : m.ops) {
        ind += r.kind == Rec::COMP ? r.sub.size() : 1;
      }
      want("getNindividualOps", q.getNindividualOps() == ind);
      std::map<Qubit, std::size_t> d;
      for (const auto &r : m.ops) {
        depthOf(r, d);
      }
      std::size_t depth = 0;
      for (const auto &[p, k] : d) {
        depth = std::max(depth, k);
      }
      want("getDepth", q.getDepth() == depth);
      for (Qubit p = 0; p < 14; p++) {
        want("isIdleQubit", q.isIdleQubit(p) == m.idle(p));
        bool anc = false;
        for (const auto &[n, r] : m.a) {
          anc = anc || (p >= r.start && p < r.start + r.size);
        }
        want("physicalQubitIsAncillary", q.physicalQubitIsAncillary(p) == anc);
        const auto [has, at] = q.containsLogicalQubit(p);
        want("containsLogicalQubit", has == m.label(p));
        if (m.label(p)) {
          want("containsLogicalQubit", at && m.in.at(*at) == p);
          want("getPhysicalQubitIndex",
               m.in.at(q.getPhysicalQubitIndex(p)) == p);
          want("logicalQubitIsAncillary",
               q.logicalQubitIsAncillary(p) == m.anc.at(p));
          want("logicalQubitIsGarbage",
               q.logicalQubitIsGarbage(p) == (m.garb.count(p) != 0));
        }
        if (m.in.count(p) != 0) {
          want("getQubitRegister", q.getQubitRegister(p).contains(p));
        }
      }
      if (!m.in.empty()) {
        want("getHighestPhysicalQubitIndex",
             q.getHighestPhysicalQubitIndex() == m.in.rbegin()->first);
        Qubit hl = 0;
        for (const auto &[p, l] : m.in) {
          hl = std::max(hl, l);
        }
        want("getHighestLogicalQubitIndex",
             q.getHighestLogicalQubitIndex() == hl);
      }
      std::set<Qubit> measured;
      int dyn = 0;
      for (const auto &r : m.ops) {
        dyn = dynamicOf(r, measured);
        if (dyn != 0) {
          break;
        }
      }
      want("isDynamic", dyn == 2 || q.isDynamic() == (dyn == 1));
      want("isVariableFree",
           q.isVariableFree() ==
               std::none_of(m.ops.begin(), m.ops.end(), isSym));
      if (!m.ops.empty()) {
        const auto i = st.at(1) % m.ops.size();
        std::set<Qubit> us;
        usedQ(m.ops[i], us);
        want("getUsedQubits", q.at(i)->getUsedQubits() == us);
        bool last = true;
        for (std::size_t j = i + 1; j < m.ops.size(); j++) {
          for (const auto p : us) {
            last = last && !touches(m.ops[j], p);
          }
        }
        want("isLastOperationOnQubit",
             q.isLastOperationOnQubit(
                 q.cbegin() + static_cast<std::ptrdiff_t>(i), q.cend()) ==
                 last);
        want("isSymbolicOperation",
             q.at(i)->isSymbolicOperation() == isSym(m.ops[i]));
        want("isNonUnitaryOperation",
             m.ops[i].kind == Rec::CC || hasCC(m.ops[i]) ||
                 q.at(i)->isNonUnitaryOperation() == hasNonU(m.ops[i]));
      }
    });
    if (o == REJECT) {
      c.fail(id + "/query", "a query was refused");
    }
    if (o == OK && !bad.empty()) {
      c.fail(id + "/query", "%s is wrong", bad.c_str());
    }
    const Out e = call("print and compare", [&] {
      std::ostringstream os;
      os << q;
      q.printStatistics(os);
      want("print", !os.str().empty());
      want("equality", q == q);
      if (const auto &y = sl[1 - s]; y.q) { // registers of both circuits
        auto regs = [&](const auto &ra, const auto &rb) {
          for (const auto &[na, a] : ra) {
            for (const auto &[nb, b] : rb) {
              want("register equality",
                   (a == b) == (na == nb && a.getSize() == b.getSize() &&
                                a.getStartIndex() == b.getStartIndex()));
            }
          }
        };
        regs(q.getQuantumRegisters(), y.q->getQuantumRegisters());
        regs(q.getClassicalRegisters(), y.q->getClassicalRegisters());
      }
      qc::QuantumComputation cp(q);
      want("equality", cp == q);
      // any difference is seen
      switch (st.at(2) % 12) {
      case 0:
        cp.gphase(0.5);
        want("equality", cp != q);
        break;
      case 1:
        cp.addClassicalRegister(1, "zz");
        want("equality", cp != q);
        break;
      case 2:
        if (!cp.empty()) {
          cp.pop_back();
          want("equality", cp != q && q != cp);
        }
        break;
      case 3:
        if (m.in.size() > 1) {
          std::swap(cp.initialLayout.begin()->second,
                    std::next(cp.initialLayout.begin())->second);
          want("equality", cp != q);
        }
        break;
      case 4:
        if (!m.out.empty()) {
          cp.outputPermutation.erase(cp.outputPermutation.begin());
          want("equality", cp != q);
        }
        break;
      case 5:
        for (const auto &[l, f] : m.anc) {
          if (!f) {
            cp.setLogicalQubitAncillary(l);
            want("equality", cp != q);
            break;
          }
        }
        break;
      case 6:
        for (const auto &[l, f] : m.anc) { // only the flag differs
          (void)f;
          if (m.garb.count(l) == 0) {
            qc::QuantumComputation cq(q);
            cq.setLogicalQubitGarbage(l);
            cp.outputPermutation = cq.outputPermutation;
            want("equality", cp != cq && cq != cp);
            break;
          }
        }
        break;
      default:
        if (!m.ops.empty()) { // change one operation a little
          NoFault nf;
          const auto i = st.at(3) % m.ops.size();
          const auto changed = mutate(m.ops[i], st.at(4));
          if (changed) {
            cp.at(i) = build(*changed);
            const bool same = sameMeaning(*changed, m.ops[i]);
            if (!same) {
              want("equality", cp != q && q != cp);
            }
          }
        }
      }
    });
    if (e == REJECT) {
      c.fail(id + "/query", "printing or comparing was refused");
    }
    if (e == OK && !bad.empty()) {
      c.fail(id + "/query", "%s is wrong", bad.c_str());
    }
    compare(readState(q), m, "queries");
  }
  // a slightly different operation
  std::optional<Rec> mutate(const Rec &r, u64 k) {
    Rec z = r;
    if (r.kind == Rec::CC) {
      switch (k % 3) {
      case 0:
        if (r.isReg) {
          z.cval = r.cval + 1;
        } else {
          z.cval = 1 - r.cval;
        }
        return z;
      case 1:
        z.cstart = r.cstart + 1;
        return z;
      default: {
        const auto s = mutate(r.sub[0], k / 3);
        if (!s) {
          return std::nullopt;
        }
        z.sub[0] = *s;
        return z;
      }
      }
    }
    if (r.kind == Rec::COMP) {
      if (r.sub.empty()) {
        return std::nullopt;
      }
      const auto i = k % r.sub.size();
      const auto s = mutate(r.sub[i], k / 8);
      if (!s) {
        return std::nullopt;
      }
      z.sub[i] = *s;
      return z;
    }
    if (r.kind == Rec::NONU) {
      if (r.t == qc::Measure) {
        z.bits[k % z.bits.size()] += 1 + k / 8 % 3;
        return z;
      }
      return std::nullopt;
    }
    if (r.t == qc::Barrier) {
      return std::nullopt;
    }
    if (!r.par.empty() && k % 2 == 0) {
      auto &p = z.par[(k / 2) % z.par.size()];
      if (p.sym && (k / 8) % 2 == 0 && p.terms.size() == 1) {
        p.terms[0].first = (p.terms[0].first + 1) % 3;
      } else {
        p.num += 0.25;
      }
      return z;
    }
    if (!r.ct.empty()) {
      auto &x = z.ct[(k / 2) % z.ct.size()];
      if ((k / 16) % 2 == 0) {
        x.second = !x.second;
      } else { // exchange a control and a target
        std::swap(x.first, z.tg[0]);
      }
      std::sort(z.ct.begin(), z.ct.end());
      return z;
    }
    if (r.tg.size() == 2) {
      std::swap(z.tg[0], z.tg[1]);
      return z;
    }
    return std::nullopt;
  }
  bool sameMeaning(const Rec &a, const Rec &b) {
    if (a.kind != b.kind) {
      return false;
    }
    if (a.kind == Rec::CC || a.kind == Rec::COMP) {
      if (a.sub.size() != b.sub.size() || a.cstart != b.cstart ||
          a.cval != b.cval || a.cmp != b.cmp) {
        return false;
      }
      for (std::size_t i = 0; i < a.sub.size(); i++) {
        if (!sameMeaning(a.sub[i], b.sub[i])) {
          return false;
        }
      }
      return true;
    }
    if (a.kind == Rec::NONU) {
      return a == b;
    }
    std::set<Qubit> ua;
    std::set<Qubit> ub;
    usedQ(a, ua);
    usedQ(b, ub);
    if (ua != ub) {
      return false;
    }
    const std::vector<Qubit> qs(ua.begin(), ua.end());
    const auto x = matOf(a, qs);
    const auto y = matOf(b, qs);
    return x && y && dn::dist(x->a, y->a) < 1e-9;
  }
  qc::SymbolOrNumber paramOf(const Param &p) {
    if (!p.sym) {
      return p.num;
    }
    qc::Symbolic e;
    for (const auto &[v, k] : p.terms) {
      e += sym::Term<qc::fp>(variables()[static_cast<std::size_t>(v)], k);
    }
    e.setConst(p.num);
    return e;
  }
  std::unique_ptr<qc::Operation> build(const Rec &r) {
    qc::Controls cs;
    for (const auto &[q, b] : r.ct) {
      cs.emplace(q, b ? qc::Control::Type::Pos : qc::Control::Type::Neg);
    }
    switch (r.kind) {
    case Rec::COMP: {
      auto z = std::make_unique<qc::CompoundOperation>();
      for (const auto &x : r.sub) {
        z->emplace_back(build(x));
      }
      return z;
    }
    case Rec::CC: {
      const auto k = static_cast<qc::ComparisonKind>(r.cmp);
      if (r.isReg) {
        std::string nm;
        for (const auto &s : sl) {
          for (const auto &[n, g] : s.m.c) {
            if (g.start == r.cstart) {
              nm = n;
            }
          }
        }
        return std::make_unique<qc::ClassicControlledOperation>(
            build(r.sub[0]),
            qc::ClassicalRegister(r.cstart, r.csize, nm.empty() ? "zz" : nm),
            r.cval, k);
      }
      return std::make_unique<qc::ClassicControlledOperation>(
          build(r.sub[0]), r.cstart, r.cval, k);
    }
    case Rec::NONU:
      if (r.t == qc::Measure) {
        return std::make_unique<qc::NonUnitaryOperation>(
            r.tg, std::vector<qc::Bit>(r.bits.begin(), r.bits.end()));
      }
      return std::make_unique<qc::NonUnitaryOperation>(r.tg, r.t);
    default:
      break;
    }
    if (isSym(r)) {
      std::vector<qc::SymbolOrNumber> ps;
      for (const auto &p : r.par) {
        ps.push_back(paramOf(p));
      }
      return std::make_unique<qc::SymbolicOperation>(cs, r.tg, r.t, ps);
    }
    std::vector<qc::fp> ps;
    for (const auto &p : r.par) {
      ps.push_back(p.num);
    }
    return std::make_unique<qc::StandardOperation>(cs, r.tg, r.t, ps);
  }

  void run() {
    for (const auto &st : plan.steps) {
      if (st.op == "knob") {
        continue;
      }
      lastOom = false;
      step(st);
      c.steps++;
      pendingCheckOther(st.at(0) % 2, st.op.c_str());
      const auto &m = sl[st.at(0) % 2].m;
      u64 h = mix(m.nq * 64 + m.na * 8 + m.nc);
      for (const auto &[p, l] : m.in) {
        h = mix(h ^ (p * 97 + l));
      }
      for (const auto &[p, l] : m.out) {
        h = mix(h ^ (p * 131 + l + 7));
      }
      for (const auto &r : m.ops) {
        h = mix(h ^ (r.t * 11U + r.kind));
      }
      c.feed(h);
      c.cover(h);
    }
    c.count("edits", edits);
    c.count("refused", rejects);
    c.nontrivial = edits >= 5;
  }
};

void run14(const Plan &p, Ctx &c) {
  S14 s(c, p);
  s.run();
}
Plan gen14(u64 seed) {
  Rng r(seed);
  Plan p;
  p.prop = "P14";
  p.add("knob", {r.next() >> 32}, "layout");
  auto a = [&](const char *op, u64 s) {
    p.add(op, {s, r.next() >> 20, r.next() >> 20, r.next() >> 20,
               r.next() >> 20, r.next() >> 20, r.next() >> 20, r.next() >> 20});
  };
  // most histories start with some qubits and bits
  if (r.chance(0.9)) {
    a("qreg", 0);
    a("creg", 0);
  }
  static const std::vector<std::string> BUILD{
      "gate", "gate", "gate",    "push",  "sgate", "meas",
      "cc",   "wrap", "barrier", "reset", "ins"};
  static const std::vector<std::string> SHAPE{
      "qreg",   "areg", "creg", "rmq",   "rmq",   "addq",  "addq",
      "addanc", "flag", "flag", "unify", "strip", "layout"};
  static const std::vector<std::string> WHOLE{
      "invert", "rev",     "copy",  "assign",  "move",    "inst",  "asop",
      "iomap",  "reorder", "phase", "appmeas", "measall", "group", "control",
      "erase",  "pop",     "rep",   "query",   "query",   "name",  "setop"};
  static const std::vector<std::string> RARE{"clear", "resetall"};
  const u64 n = r.range(8, 45);
  const double pb = 0.2 + 0.4 * r.unit();
  const double ps = 0.1 + 0.5 * r.unit();
  const double pf = r.chance(0.4) ? 0.15 : 0;
  const bool two = r.chance(0.4);
  for (u64 i = 0; i < n; i++) {
    if (r.chance(pf)) {
      p.add("fail", {r.next() >> 40, r.next() >> 40});
    }
    const u64 s = two ? r.below(2) : 0;
    const double z = r.unit();
    if (z < pb) {
      a(r.pick(BUILD).c_str(), s);
    } else if (z < pb + (1 - pb) * ps) {
      a(r.pick(SHAPE).c_str(), s);
    } else if (r.chance(0.03)) {
      a(r.pick(RARE).c_str(), s);
    } else {
      a(r.pick(WHOLE).c_str(), s);
    }
  }
  a("query", 0);
  return p;
}
const Register R14("P14", gen14, run14);
} // namespace
