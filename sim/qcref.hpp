// Independent reading of a circuit's operation list.
#pragma once
#include "circ.hpp"

#include <optional>

namespace circ {
// appends what `op` does; `cond`: classical condition in force
inline void refsOfOp(const qc::Operation& op, std::vector<Ref>& out,
                     const Ref* cond = nullptr) {
  auto put = [&](Ref r) {
    if (cond != nullptr) {
      r.cond = true;
      r.cstart = cond->cstart;
      r.csize = cond->csize;
      r.cval = cond->cval;
      r.cmp = cond->cmp;
      r.desc = cond->desc + r.desc;
    }
    out.push_back(std::move(r));
  };
  if (const auto* c = dynamic_cast<const qc::CompoundOperation*>(&op)) {
    for (const auto& o : *c) {
      refsOfOp(*o, out, cond);
    }
    return;
  }
  if (const auto* c =
          dynamic_cast<const qc::ClassicControlledOperation*>(&op)) {
    Ref k;
    if (cond != nullptr) {
      throw std::logic_error("nested condition");
    }
    k.cval = c->getExpectedValue();
    if (c->getControlBit().has_value()) {
      k.cstart = *c->getControlBit();
      k.csize = 1;
    } else {
      k.cstart = c->getControlRegister()->getStartIndex();
      k.csize = c->getControlRegister()->getSize();
    }
    switch (c->getComparisonKind()) {
    case qc::Eq:
      k.cmp = 0;
      break;
    case qc::Neq:
      k.cmp = 1;
      break;
    case qc::Lt:
      k.cmp = 2;
      break;
    case qc::Leq:
      k.cmp = 3;
      break;
    case qc::Gt:
      k.cmp = 4;
      break;
    default:
      k.cmp = 5;
    }
    k.desc = sim::fmt("if bits[%zu+%zu] cmp%d %llu: ", k.cstart, k.csize, k.cmp,
                      (unsigned long long)k.cval);
    refsOfOp(*c->getOperation(), out, &k);
    return;
  }
  if (const auto* m = dynamic_cast<const qc::NonUnitaryOperation*>(&op)) {
    Ref r;
    r.kind = m->getType() == qc::Measure ? Ref::MEAS : Ref::RESET;
    for (const auto q : m->getTargets()) {
      r.targets.push_back(q);
      r.desc += sim::fmt(" %u", unsigned(q));
    }
    if (r.kind == Ref::MEAS) {
      r.desc += " ->";
      for (const auto b : m->getClassics()) {
        r.bits.push_back(b);
        r.desc += sim::fmt(" %llu", (unsigned long long)b);
      }
      if (r.bits.size() != r.targets.size()) {
        throw std::logic_error("measurement with unequal targets and bits");
      }
    }
    r.desc = (r.kind == Ref::MEAS ? "measure" : "reset") + r.desc;
    put(r);
    return;
  }
  if (op.getType() == qc::Barrier) {
    Ref r;
    r.desc = "barrier";
    for (const auto q : op.getTargets()) {
      r.targets.push_back(q);
    }
    put(r);
    return;
  }
  if (op.getType() == qc::GPhase) {
    Ref r;
    r.kind = Ref::U;
    r.u = Mat(1);
    r.u.at(0, 0) = gt::ex(op.getParameter().at(0));
    for (const auto& c : op.getControls()) {
      r.controls.emplace_back(c.qubit, c.type == qc::Control::Type::Pos);
    }
    r.desc = sim::fmt("gphase %.6f/%zu", op.getParameter().at(0),
                      r.controls.size());
    put(r);
    return;
  }
  GateInst g;
  g.t = op.getType();
  for (const double x : op.getParameter()) {
    g.p.push_back(x);
  }
  g.targets = op.getTargets();
  g.controls = op.getControls();
  put(refOf(g));
}
inline std::vector<Ref> refsOf(const qc::QuantumComputation& q) {
  std::vector<Ref> r;
  for (const auto& op : q) {
    refsOfOp(*op, r);
  }
  return r;
}
// bytewise description of an operation list
inline std::vector<std::string> describe(const std::vector<Ref>& rs) {
  std::vector<std::string> o;
  for (const auto& r : rs) {
    std::string s = sim::fmt("%d ", int(r.kind)) + r.desc;
    for (const auto& x : r.u.a) {
      s += sim::fmt(" %.9g,%.9g", x.real(), x.imag());
    }
    o.push_back(s);
  }
  return o;
}
} // namespace circ
