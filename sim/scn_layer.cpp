// P16: the layer view of a circuit under seeded execution orders.
#include "circbuild.hpp"
#include "datastructures/Layer.hpp"
#include "ir/operations/CompoundOperation.hpp"
#include "ir/operations/StandardOperation.hpp"
#include "ir/operations/SymbolicOperation.hpp"

#include <algorithm>
#include <map>
#include <set>

namespace {
using namespace sim;
using circ::Ref;
using dn::Vec;
using Vertex = std::shared_ptr<qc::Layer::DAGVertex>;

struct S16 {
  Ctx &c;
  const Plan &plan;
  const std::string id = "P16";
  std::size_t nq = 1;
  std::unique_ptr<qc::QuantumComputation> q;
  std::vector<std::vector<Ref>> refs; // per top-level operation
  std::vector<std::string> text;
  std::vector<std::set<std::size_t>> used;
  std::vector<bool> barrier;

  struct View {
    std::unique_ptr<qc::Layer> l;
    bool commutable = true;
    std::vector<std::size_t> order;
    std::vector<bool> done;
    std::vector<Vertex> seen; // every vertex that was executable once
  };
  std::vector<View> views;
  u64 failAt = 0;
  bool fired = false;
  u64 execs = 0, refused = 0, complete = 0;

  S16(Ctx &cc, const Plan &p) : c(cc), plan(p) {
    nq = 1 + plan.knob("nq", 2) % 5;
    const u64 gap = plan.knob("gap", 0);
    std::size_t n = nq;
    if (gap == 0) {
      for (std::size_t i = 0; i < nq; i++) {
        phys.push_back(static_cast<qc::Qubit>(i));
      }
      q = std::make_unique<qc::QuantumComputation>(nq, 0, 5);
      return;
    }
    // qubits removed again: the physical indices of the others have gaps
    n += 1 + gap % 4;
    q = std::make_unique<qc::QuantumComputation>(n, 0, 5);
    std::set<qc::Qubit> gone;
    for (u64 k = 0; gone.size() < n - nq; k++) {
      gone.insert(static_cast<qc::Qubit>(mix(gap + k) % n));
    }
    for (std::size_t i = 0; i < n; i++) {
      const auto x = static_cast<qc::Qubit>(i);
      if (gone.count(x) == 0) {
        phys.push_back(x);
      } else {
        q->removeQubit(x);
      }
    }
    c.count("gaps");
  }
  // physical index of each qubit of the reference
  std::vector<qc::Qubit> phys;
  void toPhys(qc::Operation &op) const {
    if (auto *co = dynamic_cast<qc::CompoundOperation *>(&op)) {
      for (auto &o : *co) {
        toPhys(*o);
      }
      return;
    }
    for (auto &t : op.getTargets()) {
      t = phys[t];
    }
    qc::Controls cs;
    for (const auto &k : op.getControls()) {
      cs.emplace(phys[k.qubit], k.type);
    }
    op.setControls(cs);
  }

  // --------------------------------------------------------- circuit building
  void put(std::unique_ptr<qc::Operation> op, std::vector<Ref> r,
           const std::string &t, bool bar = false, bool raw = true) {
    std::set<std::size_t> u;
    for (const auto &x : r) {
      u.insert(x.targets.begin(), x.targets.end());
      for (const auto &k : x.controls) {
        u.insert(k.first);
      }
    }
    used.push_back(u);
    refs.push_back(std::move(r));
    text.push_back(t);
    barrier.push_back(bar);
    if (raw) {
      toPhys(*op);
    }
    q->emplace_back(std::move(op));
    c.ev("[%zu] %s", refs.size() - 1, t.c_str());
  }
  static Ref dagger(Ref r) {
    r.u = dn::dagger(r.u);
    return r;
  }
  // a single-qubit gate type on several targets at once
  std::unique_ptr<qc::Operation> global(const Step &st, std::vector<Ref> &r,
                                        std::string &t) {
    auto g = circ::decode(st.at(0), st.at(1), 7, st.at(3), 1, 0);
    if (!qc::isSingleQubitGate(g.t)) {
      g.t = qc::RY;
      g.p = {gt::ang(st.at(3))};
    }
    auto perm = circ::permutation(st.at(1), nq);
    const std::size_t k = st.at(2) % 3 == 0 ? nq : 1 + (st.at(2) >> 4) % nq;
    g.targets.clear();
    for (std::size_t i = 0; i < k; i++) {
      g.targets.push_back(static_cast<qc::Qubit>(perm[i]));
    }
    std::sort(g.targets.begin(), g.targets.end());
    if (g.t == qc::I) {
      g.t = qc::H;
    }
    const auto u = circ::refGate(g.t, g.p);
    for (const auto x : g.targets) {
      Ref f;
      f.kind = Ref::U;
      f.u = u;
      f.targets = {x};
      r.push_back(f);
    }
    t = g.text();
    if (st.at(2) % 2 == 0) {
      return std::make_unique<qc::StandardOperation>(g.targets, g.t, g.p);
    }
    auto co = std::make_unique<qc::CompoundOperation>();
    for (const auto x : g.targets) {
      co->emplace_back(std::make_unique<qc::StandardOperation>(x, g.t, g.p));
    }
    t = "{" + t + "}";
    return co;
  }
  void build(const Step &st) {
    if (st.op == "g" || st.op == "few") {
      // "few": gates that often share a commutation class
      static const std::vector<int> FEW = [] {
        std::vector<int> v;
        const auto &d = circ::gateDefs();
        for (std::size_t i = 0; i < d.size(); i++) {
          switch (d[i].t) {
          case qc::X:
          case qc::Z:
          case qc::H:
          case qc::S:
          case qc::RX:
          case qc::RZ:
          case qc::P:
          case qc::RZZ:
          case qc::SWAP:
          case qc::U:
            v.push_back(static_cast<int>(i));
            break;
          default:
            break;
          }
        }
        return v;
      }();
      const auto g = circ::decode(st.at(0), st.at(1), st.at(2), st.at(3), nq, 3,
                                  st.op == "few" ? &FEW : nullptr);
      put(circ::opOf(g), {circ::refOf(g)}, g.text());
      return;
    }
    if (st.op == "sym") { // with symbolic parameters, read at x = .7, y = 1.9
      static const std::vector<std::pair<qc::OpType, std::size_t>> T{
          {qc::U, 3}, {qc::U, 3}, {qc::U2, 2}, {qc::RX, 1}, {qc::P, 1}};
      const auto &[t, np] = T[st.at(0) % T.size()];
      auto perm = circ::permutation(st.at(1), nq);
      qc::Controls cs;
      if (nq > 1 && st.at(2) % 3 == 0) {
        cs.emplace(static_cast<qc::Qubit>(perm[1]));
      }
      const qc::Targets tg{static_cast<qc::Qubit>(perm[0])};
      std::vector<qc::SymbolOrNumber> ps;
      std::vector<double> vals;
      std::string d = qc::toString(t);
      bool any = false;
      for (std::size_t k = 0; k < np; k++) {
        const u64 r = mix(st.at(3) % 16 + k * 5);
        if (r % 3 == 0 && (any || k + 1 < np)) {
          const double v = 0.25 * double(1 + (r >> 8) % 3);
          ps.emplace_back(v);
          vals.push_back(v);
          d += fmt(" %.2f", v);
        } else {
          any = true;
          static const sym::Variable X("x"), Y("y");
          const bool y = (r >> 4) % 2 == 0;
          const double k0 = (r >> 16) % 2 == 0 ? 1 : -2;
          qc::Symbolic e;
          e += sym::Term<qc::fp>(y ? Y : X, k0);
          ps.emplace_back(e);
          vals.push_back(k0 * (y ? 1.9 : 0.7));
          d += fmt(" %.0f%c", k0, y ? 'y' : 'x');
        }
      }
      circ::GateInst g;
      g.t = t;
      g.p = vals;
      g.targets = tg;
      g.controls = cs;
      put(std::make_unique<qc::SymbolicOperation>(cs, tg, t, ps),
          {circ::refOf(g)}, d + " as " + g.text());
      return;
    }
    if (st.op == "glob") {
      std::vector<Ref> r;
      std::string t;
      auto o = global(st, r, t);
      put(std::move(o), std::move(r), t);
      return;
    }
    if (st.op == "comp") {
      auto co = std::make_unique<qc::CompoundOperation>();
      std::vector<Ref> r;
      std::string t = "{";
      const u64 n = 1 + st.at(4) % 3;
      for (u64 i = 0; i < n; i++) {
        if (st.at(4) / 8 % 3 == 0 && i == 0) {
          std::vector<Ref> rr;
          std::string tt;
          auto o = global(st, rr, tt);
          co->emplace_back(std::move(o));
          r.insert(r.end(), rr.begin(), rr.end());
          t += tt + "; ";
          continue;
        }
        const auto g =
            circ::decode(st.at(0) + i * 5, mix(st.at(1) + i), mix(st.at(2) + i),
                         mix(st.at(3) + i), nq, 2);
        co->emplace_back(circ::opOf(g));
        r.push_back(circ::refOf(g));
        t += g.text() + "; ";
      }
      put(std::move(co), std::move(r), t + "}");
      return;
    }
    if (st.op == "inv" || st.op == "again") { // of an earlier operation
      if (refs.empty()) {
        return;
      }
      const std::size_t k =
          refs.size() - 1 - st.at(0) % std::min<std::size_t>(refs.size(), 4);
      auto r = refs[k];
      if (st.op == "again") {
        put((*q).at(k)->clone(), r, "again " + text[k], barrier[k], false);
        return;
      }
      std::reverse(r.begin(), r.end());
      for (auto &x : r) {
        x = dagger(x);
      }
      std::unique_ptr<qc::Operation> o = (*q).at(k)->clone();
      o->invert();
      put(std::move(o), r, "inverse of " + text[k], barrier[k], false);
      return;
    }
    if (st.op == "ph") {
      const double a = gt::ang(st.at(3));
      qc::Controls cs;
      if (st.at(0) % 2 == 0) {
        cs.emplace(static_cast<qc::Qubit>(st.at(1) % nq));
      }
      Ref r;
      r.kind = Ref::U;
      r.u = dn::Mat(1);
      r.u.at(0, 0) = gt::ex(a);
      for (const auto &k : cs) {
        r.controls.emplace_back(k.qubit, true);
      }
      put(std::make_unique<qc::StandardOperation>(cs, qc::Targets{}, qc::GPhase,
                                                  std::vector<qc::fp>{a}),
          {r}, fmt("gphase %.4f with %zu controls", a, cs.size()));
      return;
    }
    if (st.op == "bar") {
      qc::Targets t;
      Ref r; // no action, but holds its qubits
      r.kind = Ref::NOP;
      for (std::size_t i = 0; i < nq; i++) {
        if (((st.at(0) >> i) & 1U) != 0 || st.at(1) % 3 == 0) {
          t.push_back(static_cast<qc::Qubit>(i));
          r.targets.push_back(i);
        }
      }
      if (!t.empty()) {
        put(std::make_unique<qc::StandardOperation>(t, qc::Barrier), {r},
            fmt("barrier on %zu", t.size()), true);
      }
    }
  }

  // --------------------------------------------------------- layer views
  std::size_t indexOf(const Vertex &v) {
    for (std::size_t i = 0; i < refs.size(); i++) {
      if (q->at(i).get() == v->getOperation()) {
        return i;
      }
    }
    c.fail(id + "/foreign-operation", "a vertex holds an unknown operation");
  }
  // executable vertices in circuit order
  std::map<std::size_t, Vertex> executable(View &v, const char *what) {
    std::map<std::size_t, Vertex> r;
    for (const auto &x : v.l->getExecutableSet()) {
      const auto i = indexOf(x);
      if (!r.emplace(i, x).second) {
        c.fail(id + "/duplicate", "operation %zu is twice in the set after %s",
               i, what);
      }
      if (!x->isExecutable() || x->isExecuted()) {
        c.fail(id + "/set",
               "operation %zu (%s) is in the set but not "
               "executable after %s",
               i, text[i].c_str(), what);
      }
      if (v.done[i]) {
        c.fail(id + "/twice", "operation %zu (%s) is executable again after %s",
               i, text[i].c_str(), what);
      }
    }
    std::size_t left = 0;
    for (std::size_t i = 0; i < refs.size(); i++) {
      left += v.done[i] ? 0 : 1;
    }
    if (left != 0 && r.empty()) {
      c.fail(id + "/stuck", "%zu operations can never be executed after %s",
             left, what);
    }
    for (const auto &[i, x] : r) {
      bool known = false;
      for (const auto &s : v.seen) {
        known = known || s == x;
      }
      if (!known) {
        v.seen.push_back(x);
      }
    }
    for (const auto &s : v.seen) {
      const auto i = indexOf(s);
      if (s->isExecuted() != v.done[i] ||
          s->isExecutable() != (r.count(i) != 0)) {
        c.fail(id + "/set",
               "operation %zu (%s): executed %d executable %d, "
               "expected %d %d after %s",
               i, text[i].c_str(), int(s->isExecuted()), int(s->isExecutable()),
               int(v.done[i]), int(r.count(i) != 0), what);
      }
    }
    u64 h = refs.size() * 2 + (v.commutable ? 1 : 0);
    for (const auto &[i, x] : r) {
      h = mix(h ^ (i + 1));
    }
    u64 st = h;
    for (std::size_t i = 0; i < refs.size(); i++) {
      st = mix(st * 2 + (v.done[i] ? 1 : 0));
    }
    c.feed(h);
    c.cover(st);
    return r;
  }
  Vec start(u64 r) const {
    Vec v(std::size_t{1} << nq);
    double s = 0;
    for (std::size_t i = 0; i < v.size(); i++) {
      const u64 x = mix(r + i * 3);
      v[i] = dn::cplx(double(x >> 40) / double(1U << 24) - 0.5,
                      double((x >> 8) & 0xffffffU) / double(1U << 24) - 0.5);
      s += std::norm(v[i]);
    }
    for (auto &x : v) {
      x /= std::sqrt(s);
    }
    return v;
  }
  void run(const std::vector<std::size_t> &order, Vec &v) const {
    std::vector<std::size_t> pos(nq);
    for (std::size_t i = 0; i < nq; i++) {
      pos[i] = i;
    }
    for (const auto i : order) {
      for (const auto &r : refs[i]) {
        if (r.kind == Ref::U) {
          circ::applyU(r, v, pos);
        }
      }
    }
  }
  // all done: the executed sequence is the circuit
  void verify(View &v) {
    complete++;
    std::vector<std::size_t> plainOrder;
    for (std::size_t i = 0; i < refs.size(); i++) {
      plainOrder.push_back(i);
    }
    std::string o;
    for (const auto i : v.order) {
      o += fmt(" %zu", i);
    }
    for (u64 k = 0; k < 2; k++) {
      Vec a = start(k * 1000 + 3);
      Vec b = a;
      run(plainOrder, a);
      run(v.order, b);
      double d = 0;
      for (std::size_t i = 0; i < a.size(); i++) {
        d = std::max(d, std::abs(a[i] - b[i]));
      }
      if (!(d < 1e-7)) {
        c.fail(id + (v.commutable ? "/order" : "/plain-order"),
               "executing%s is not the circuit (off by %.3g)", o.c_str(), d);
      }
    }
  }
  void exec(View &v, u64 r, const char *what) {
    auto ex = executable(v, what);
    if (ex.empty()) {
      return;
    }
    auto it = ex.begin();
    switch (r % 4) { // mostly anywhere, sometimes newest or oldest first
    case 0:
      std::advance(it, static_cast<long>(ex.size() - 1));
      break;
    case 1:
      break;
    default:
      std::advance(it, static_cast<long>((r >> 4) % ex.size()));
    }
    const auto i = it->first;
    bool bad = false;
    {
      SutScope s;
      try {
        it->second->execute();
      } catch (const std::exception &) {
        bad = true;
      }
    }
    if (bad) {
      c.fail(id + "/refused", "executable operation %zu (%s) was refused", i,
             text[i].c_str());
    }
    execs++;
    v.done[i] = true;
    v.order.push_back(i);
    c.ev("exec %zu", i);
    c.feed(i);
    executable(v, "an execution");
    if (v.order.size() == refs.size()) {
      verify(v);
    }
  }
  void attempt(View &v, u64 r) {
    executable(v, "before an attempt");
    if (v.seen.empty()) {
      return;
    }
    const Vertex x = v.seen[r % v.seen.size()];
    if (x->isExecutable()) {
      return;
    }
    const auto before = executable(v, "before an attempt");
    bool threw = false;
    {
      SutScope s;
      try {
        x->execute();
      } catch (const std::logic_error &) {
        threw = true;
      }
    }
    const auto i = indexOf(x);
    c.ev("refused %zu", i);
    if (!threw) {
      c.fail(id + "/accepted",
             "operation %zu (%s) is not executable but was "
             "executed",
             i, text[i].c_str());
    }
    refused++;
    if (executable(v, "a refused execution") != before) {
      c.fail(id + "/set", "a refused execution changed the executable set");
    }
  }
  void query(View &v, u64 r) {
    const auto ex = executable(v, "a query");
    if (refs.empty()) {
      return;
    }
    // ask for the kind of some operation
    const auto &o = *q->at(r % refs.size());
    const auto t = o.getType();
    const std::size_t nc = o.getNcontrols() + ((r >> 20) % 8 == 0 ? 1 : 0);
    std::vector<Vertex> got;
    bool threw = false;
    const std::size_t top = phys.back() + 1U;
    std::vector<std::vector<bool>> adj(top, std::vector<bool>(top, false));
    {
      SutScope s;
      got = v.l->getExecutablesOfType(t, nc);
      try {
        const auto g = v.l->constructInteractionGraph(t, nc);
        for (const auto &[i, x] : ex) {
          const auto us = x->getOperation()->getUsedQubits();
          for (const auto a : us) {
            for (const auto b : us) {
              if (x->getOperation()->getType() == t &&
                  x->getOperation()->getNcontrols() == nc && a != b) {
                adj[a][b] = g.isAdjacent(a, b);
              }
            }
          }
        }
      } catch (const std::invalid_argument &) {
        threw = true;
      }
    }
    std::set<std::size_t> gi, wi;
    for (const auto &x : got) {
      gi.insert(indexOf(x));
    }
    bool odd = false;
    bool parallel = false; // different gates on the same pair: no simple graph
    for (const auto &[i, x] : ex) {
      if (x->getOperation()->getType() == t &&
          x->getOperation()->getNcontrols() == nc) {
        for (const auto j : wi) {
          if (used[i] == used[j]) {
            parallel = true;
            if (*q->at(i) == *q->at(j) && used[i].size() == 2 && nc == 1) {
              c.fail(id + "/redundant",
                     "equal operations %zu and %zu (%s) are "
                     "executable at once",
                     i, j, text[i].c_str());
            }
          }
        }
        wi.insert(i);
        odd = odd || used[i].size() != 2;
      }
    }
    c.ev("query %s/%zu -> %zu", qc::toString(t).c_str(), nc, gi.size());
    if (gi != wi || gi.size() != got.size()) {
      c.fail(id + "/of-type", "%zu executables of type %s, expected %zu",
             got.size(), qc::toString(t).c_str(), wi.size());
    }
    const bool supported = qc::isSingleQubitGate(t) && nc == 1 && !odd;
    if (supported == threw && !(supported && parallel)) {
      c.fail(id + "/graph", "the interaction graph of %s with %zu controls %s",
             qc::toString(t).c_str(), nc,
             threw ? "was refused" : "was not refused");
    }
    if (!threw) {
      for (const auto i : wi) {
        const auto a = *used[i].begin();
        const auto b = *used[i].rbegin();
        if (!adj[phys[a]][phys[b]]) {
          c.fail(id + "/graph", "operation %zu is not in the graph", i);
        }
      }
    }
  }
  void run() {
    for (const auto &st : plan.steps) {
      if (st.op == "knob") {
        continue;
      }
      c.steps++;
      if (st.op == "fail") {
        failAt = 1 + st.at(0) % 60;
        continue;
      }
      if (st.op == "layer") {
        if (views.size() >= 6) {
          continue;
        }
        View v;
        v.commutable = st.at(0) % 3 != 0;
        v.done.assign(refs.size(), false);
        bool oom = false;
        bool threw = false;
        bool f = false;
        {
          SutScope s;
          if (failAt != 0) {
            arena::arm(failAt, 1);
          }
          try {
            v.l = std::make_unique<qc::Layer>(*q, v.commutable);
          } catch (const std::bad_alloc &) {
            oom = true;
          } catch (const std::exception &) {
            threw = true;
          }
          f = arena::disarm();
        }
        if (f) {
          c.count("fault.allocation");
        }
        if (threw || (oom && !f)) {
          c.fail(id + "/construct", "constructing the layer view failed");
        }
        if (oom) { // once more, undisturbed
          failAt = 0;
          SutScope s;
          v.l = std::make_unique<qc::Layer>(*q, v.commutable);
        }
        failAt = 0;
        c.ev("layer commutable=%d", int(v.commutable));
        executable(v, "the construction");
        views.push_back(std::move(v));
        continue;
      }
      if (st.op == "exec" || st.op == "try" || st.op == "query" ||
          st.op == "move" || st.op == "copy" || st.op == "drop") {
        if (views.empty()) {
          continue;
        }
        auto &v = views[st.at(1) % views.size()];
        if (st.op == "exec") {
          exec(v, st.at(0), "an earlier step");
        } else if (st.op == "try") {
          attempt(v, st.at(0));
        } else if (st.op == "query") {
          query(v, st.at(0));
        } else if (st.op == "drop") {
          SutScope s;
          v.seen.clear();
          views.erase(views.begin() +
                      static_cast<long>(st.at(1) % views.size()));
        } else if (st.op == "move") {
          {
            SutScope s;
            if (st.at(0) % 2 == 0) {
              auto n = std::make_unique<qc::Layer>(std::move(*v.l));
              v.l = std::move(n);
            } else {
              auto n = std::make_unique<qc::Layer>();
              *n = std::move(*v.l);
              v.l = std::move(n);
            }
          }
          c.ev("move");
          executable(v, "moving the layer");
        } else {
          if (views.size() >= 6) {
            continue;
          }
          View n;
          n.commutable = v.commutable;
          n.done = v.done;
          n.order = v.order;
          {
            SutScope s;
            if (st.at(0) % 2 == 0) {
              n.l = std::make_unique<qc::Layer>(*v.l);
            } else {
              n.l = std::make_unique<qc::Layer>();
              *n.l = *v.l;
            }
          }
          c.ev("copy");
          executable(n, "copying the layer");
          views.push_back(std::move(n));
        }
        for (auto &o : views) {
          executable(o, "a step on another layer");
        }
        continue;
      }
      if (views.empty()) {
        build(st);
      }
    }
    // no more steps: every view is driven to its end
    u64 r = plan.knob("order", 1);
    for (auto &v : views) {
      for (std::size_t k = 0; k < refs.size() && v.order.size() < refs.size();
           k++) {
        r = mix(r + k);
        exec(v, r, "the last step");
      }
      if (v.order.size() != refs.size()) {
        c.fail(id + "/stuck", "not all operations were executed");
      }
      if (!executable(v, "the end").empty()) {
        c.fail(id + "/set", "executable operations are left at the end");
      }
    }
    c.count("executions", execs);
    c.count("refused", refused);
    c.count("orders", complete);
    c.nontrivial = complete > 0 && refs.size() > 2;
  }
};
void run16(const Plan &p, Ctx &c) { S16(c, p).run(); }

Plan gen16(u64 seed) {
  Rng r(seed);
  Plan p;
  p.prop = "P16";
  p.add("knob", {r.next() >> 32}, "layout");
  p.add("knob", {r.below(5)}, "nq");
  p.add("knob", {r.next() >> 30}, "order");
  p.add("knob", {r.chance(0.1) ? 1 + (r.next() >> 40) : 0}, "gap");
  const double pg = r.unit() * 0.4;
  const double pi = r.unit() * 0.4;
  const bool few = r.chance(0.6);
  const double ps = r.chance(0.3) ? 0.5 : 0;
  const u64 n = r.range(2, 14);
  auto a = [&](const char *op) {
    p.add(op, {r.next() >> 40, r.next() >> 30, r.next() >> 40, r.next() >> 40,
               r.next() >> 40});
  };
  for (u64 i = 0; i < n; i++) {
    const double x = r.unit();
    if (x < pi) {
      a(r.chance(0.8) ? "inv" : "again");
    } else if (x < pi + pg * (1 - pi)) {
      a("glob");
    } else {
      const double y = r.unit();
      a(y < 0.04   ? "bar"
        : y < 0.08 ? "ph"
        : y < 0.16 ? "comp"
        : y < ps   ? "sym"
        : few      ? "few"
                   : "g");
    }
  }
  const u64 nv = r.range(1, 3);
  for (u64 k = 0; k < nv; k++) {
    if (r.chance(0.15)) {
      p.add("fail", {r.next() >> 40});
    }
    p.add("layer", {r.next() >> 40});
    const u64 m = r.below(2 * n);
    for (u64 i = 0; i < m; i++) {
      const double x = r.unit();
      const char *op = x < 0.66   ? "exec"
                       : x < 0.8  ? "try"
                       : x < 0.92 ? "query"
                       : x < 0.95 ? "move"
                       : x < 0.98 ? "copy"
                                  : "drop";
      p.add(op, {r.next() >> 30, r.next() >> 40});
    }
  }
  return p;
}
const Register R16("P16", gen16, run16);
} // namespace
