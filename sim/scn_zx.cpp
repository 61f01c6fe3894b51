// P13: ZX rewriting. The schedule is which rule fires on which match; every
// diagram is compared with the linear map it denotes, evaluated independently.
#include "circbuild.hpp"

#include "ir/QuantumComputation.hpp"
#include "ir/operations/CompoundOperation.hpp"
#include "ir/operations/SymbolicOperation.hpp"
#include "zx/FunctionalityConstruction.hpp"
#include "zx/Rules.hpp"
#include "zx/Simplify.hpp"
#include "zx/ZXDiagram.hpp"

#include <algorithm>
#include <memory>
#include <new>
#include <optional>
#include <set>

using namespace sim;
using dn::cplx;
using dn::Mat;
using dn::Vec;

namespace {
struct LMap { // amplitude of (out bits, in bits) at out << nin | in
  std::size_t nin = 0, nout = 0;
  Vec a;
};
double norm(const LMap& m) { return std::sqrt(dn::norm2(m.a)); }
// distance of two maps up to a non-zero scalar (both normalised)
double apart(const LMap& x, const LMap& y) {
  if (x.nin != y.nin || x.nout != y.nout) {
    return 1e9;
  }
  const double nx = norm(x);
  const double ny = norm(y);
  if (!(nx > 0) || !(ny > 0)) {
    return 1e8;
  }
  const cplx o = dn::dot(x.a, y.a) / (nx * ny);
  return std::sqrt(std::max(0.0, 1 - std::norm(o)));
}

// ------------------------------------------------------ evaluating a diagram
struct Factor {
  std::vector<int> vars; // ascending; bit k of the index belongs to vars[k]
  Vec t;
};
Factor mulF(const Factor& x, const Factor& y) {
  Factor r;
  std::set_union(x.vars.begin(), x.vars.end(), y.vars.begin(), y.vars.end(),
                 std::back_inserter(r.vars));
  const std::size_t n = r.vars.size();
  r.t.assign(std::size_t{1} << n, 0);
  auto pos = [&](const Factor& f) {
    std::vector<std::size_t> p;
    for (const int v : f.vars) {
      p.push_back(static_cast<std::size_t>(
          std::lower_bound(r.vars.begin(), r.vars.end(), v) - r.vars.begin()));
    }
    return p;
  };
  const auto px = pos(x);
  const auto py = pos(y);
  for (std::size_t i = 0; i < r.t.size(); i++) {
    std::size_t ix = 0;
    std::size_t iy = 0;
    for (std::size_t k = 0; k < px.size(); k++) {
      ix |= ((i >> px[k]) & 1U) << k;
    }
    for (std::size_t k = 0; k < py.size(); k++) {
      iy |= ((i >> py[k]) & 1U) << k;
    }
    r.t[i] = x.t[ix] * y.t[iy];
  }
  return r;
}
Factor sumOut(const Factor& f, int v) {
  Factor r;
  const auto at = static_cast<std::size_t>(
      std::lower_bound(f.vars.begin(), f.vars.end(), v) - f.vars.begin());
  for (const int x : f.vars) {
    if (x != v) {
      r.vars.push_back(x);
    }
  }
  r.t.assign(f.t.size() / 2, 0);
  for (std::size_t i = 0; i < f.t.size(); i++) {
    const std::size_t lo = i & ((std::size_t{1} << at) - 1);
    const std::size_t hi = i >> (at + 1);
    r.t[(hi << at) | lo] += f.t[i];
  }
  return r;
}

struct S13 {
  Ctx& c;
  const Plan& plan;
  std::string id = "P13";
  std::vector<sym::Variable> vars;
  sym::VariableAssignment assign;
  u64 checks = 0;

  struct D {
    zx::ZXDiagram d;
    LMap m;
    bool zOnly = false; // only Z spiders (gadget rules need that)
  };
  std::vector<D> ds;

  S13(Ctx& ctx, const Plan& p) : c(ctx), plan(p) {}

  double angle(const zx::PiExpression& e) const { return e.evaluate(assign); }

  // the linear map; nullopt if evaluating it would be too expensive
  std::optional<LMap> eval(const zx::ZXDiagram& d) const {
    std::vector<zx::Vertex> vs;
    for (const auto& [v, _] : d.getVertices()) {
      vs.push_back(v);
    }
    const std::size_t top = vs.empty() ? 0 : vs.back() + 1;
    std::vector<int> rep(top);
    for (std::size_t i = 0; i < top; i++) {
      rep[i] = static_cast<int>(i);
    }
    std::function<int(int)> find = [&](int x) {
      while (rep[static_cast<std::size_t>(x)] != x) {
        x = rep[static_cast<std::size_t>(x)];
      }
      return x;
    };
    auto isX = [&](zx::Vertex v) { return d.type(v) == zx::VertexType::X; };
    auto had = [&](zx::Vertex v, const zx::Edge& e) {
      return (e.type == zx::EdgeType::Hadamard) ^ isX(v) ^ isX(e.to);
    };
    for (const auto v : vs) {
      for (const auto& e : d.incidentEdges(v)) {
        if (v < e.to && !had(v, e)) {
          rep[static_cast<std::size_t>(find(static_cast<int>(v)))] =
              find(static_cast<int>(e.to));
        }
      }
    }
    std::map<int, double> phase;
    std::map<std::pair<int, int>, int> hs;
    for (const auto v : vs) {
      const int r = find(static_cast<int>(v));
      phase[r] += angle(d.phase(v));
      for (const auto& e : d.incidentEdges(v)) {
        if (v < e.to && had(v, e)) {
          const int s = find(static_cast<int>(e.to));
          if (r == s) {
            phase[r] += zx::PI;
          } else {
            hs[{std::min(r, s), std::max(r, s)}]++;
          }
        }
      }
    }
    std::set<int> open;
    for (const auto v : d.getInputs()) {
      open.insert(find(static_cast<int>(v)));
    }
    for (const auto v : d.getOutputs()) {
      open.insert(find(static_cast<int>(v)));
    }
    std::vector<Factor> fs;
    for (const auto& [v, p] : phase) {
      fs.push_back({{v}, {1, std::exp(cplx(0, p))}});
    }
    for (const auto& [e, n] : hs) {
      const double s = 1 / std::sqrt(2.0);
      if (n % 2 == 1) {
        fs.push_back({{e.first, e.second}, {s, s, s, -s}});
      }
    }
    std::set<int> closed;
    for (const auto& [v, p] : phase) {
      if (open.count(v) == 0) {
        closed.insert(v);
      }
    }
    while (!closed.empty()) {
      int best = -1;
      std::size_t bestN = 99;
      for (const int v : closed) {
        std::set<int> u;
        for (const auto& f : fs) {
          if (std::binary_search(f.vars.begin(), f.vars.end(), v)) {
            u.insert(f.vars.begin(), f.vars.end());
          }
        }
        if (u.size() < bestN) {
          bestN = u.size();
          best = v;
        }
      }
      if (bestN > 16) {
        return std::nullopt;
      }
      Factor m{{}, {1}};
      std::vector<Factor> rest;
      for (auto& f : fs) {
        if (std::binary_search(f.vars.begin(), f.vars.end(), best)) {
          m = mulF(m, f);
        } else {
          rest.push_back(std::move(f));
        }
      }
      rest.push_back(sumOut(m, best));
      fs = std::move(rest);
      closed.erase(best);
    }
    Factor all{{}, {1}};
    for (const auto& f : fs) {
      all = mulF(all, f);
    }
    LMap r;
    r.nin = d.getInputs().size();
    r.nout = d.getOutputs().size();
    r.a.assign(std::size_t{1} << (r.nin + r.nout), 0);
    for (std::size_t i = 0; i < r.a.size(); i++) {
      std::map<int, unsigned> val;
      bool ok = true;
      auto set = [&](zx::Vertex v, unsigned bit) {
        const auto [it, fresh] = val.emplace(find(static_cast<int>(v)), bit);
        ok = ok && (fresh || it->second == bit);
      };
      for (std::size_t k = 0; k < r.nin; k++) {
        set(d.getInput(k), (i >> k) & 1U);
      }
      for (std::size_t k = 0; k < r.nout; k++) {
        set(d.getOutput(k), (i >> (r.nin + k)) & 1U);
      }
      if (!ok) {
        continue;
      }
      std::size_t ix = 0;
      for (std::size_t k = 0; k < all.vars.size(); k++) {
        ix |= static_cast<std::size_t>(val.at(all.vars[k])) << k;
      }
      r.a[i] = all.t[ix];
    }
    return r;
  }

  // ------------------------------------------------------ structure
  void structure(const zx::ZXDiagram& d, const std::string& what) {
    auto bad = [&](const std::string& s) {
      c.fail(id + "/structure", "after %s: %s", what.c_str(), s.c_str());
    };
    std::vector<zx::Vertex> vs;
    std::set<zx::Vertex> alive;
    for (const auto& [v, _] : d.getVertices()) {
      vs.push_back(v);
      alive.insert(v);
    }
    if (vs.size() != d.getNVertices()) {
      bad(fmt("%zu vertices are listed and %zu counted", vs.size(),
              d.getNVertices()));
    }
    std::set<zx::Vertex> io(d.getInputs().begin(), d.getInputs().end());
    io.insert(d.getOutputs().begin(), d.getOutputs().end());
    if (io.size() != d.getInputs().size() + d.getOutputs().size()) {
      bad("an input or output is listed twice");
    }
    for (const auto v : io) {
      if (alive.count(v) == 0) {
        bad(fmt("boundary vertex %zu is gone", v));
      }
    }
    std::size_t halves = 0;
    std::set<std::pair<zx::Vertex, zx::Vertex>> pairs;
    for (const auto v : vs) {
      std::set<zx::Vertex> seen;
      for (const auto& e : d.incidentEdges(v)) {
        halves++;
        if (alive.count(e.to) == 0) {
          bad(fmt("vertex %zu has an edge to deleted vertex %zu", v, e.to));
        }
        if (e.to == v) {
          bad(fmt("vertex %zu has a loop", v));
        }
        if (!seen.insert(e.to).second) {
          bad(fmt("parallel edges %zu-%zu", v, e.to));
        }
        pairs.emplace(std::min(v, e.to), std::max(v, e.to));
        const auto back = d.getEdge(e.to, v);
        if (!back.has_value() || back->type != e.type) {
          bad(fmt("edge %zu-%zu is not stored in both directions alike", v,
                  e.to));
        }
      }
      if (d.isBoundaryVertex(v) != (io.count(v) != 0)) {
        bad(fmt("vertex %zu: boundary type and input/output lists disagree",
                v));
      }
      if (io.count(v) != 0 &&
          (d.degree(v) != 1 || !d.phase(v).isZero())) {
        bad(fmt("boundary vertex %zu has degree %zu or a phase", v,
                d.degree(v)));
      }
    }
    if (halves != 2 * d.getNEdges()) {
      bad(fmt("%zu half edges are stored and %zu edges counted", halves,
              d.getNEdges()));
    }
    const auto adj = d.getAdjMat();
    std::size_t n = 0;
    for (const auto& [a, b] : d.getEdges()) {
      n++;
      if (a >= adj.size() || b >= adj.size() || !adj[a][b] || !adj[b][a]) {
        bad(fmt("the adjacency matrix lacks edge %zu-%zu", a, b));
      }
      if (pairs.count({std::min(a, b), std::max(a, b)}) == 0) {
        bad("getEdges lists an edge that does not exist");
      }
    }
    if (n != pairs.size()) {
      bad(fmt("getEdges lists %zu of %zu edges", n, pairs.size()));
    }
  }

  static bool allZ(const zx::ZXDiagram& d) {
    for (const auto& [v, data] : d.getVertices()) {
      if (data.type == zx::VertexType::X) {
        return false;
      }
    }
    return true;
  }
  void feed(const zx::ZXDiagram& d) {
    u64 h = 7;
    for (const auto& [v, data] : d.getVertices()) {
      h = mix(h ^ mix(v * 4 + static_cast<u64>(data.type)) ^
              mix(static_cast<u64>(angle(data.phase) * 1e6)));
      for (const auto& e : d.incidentEdges(v)) {
        h = mix(h ^ (e.to * 2 + static_cast<u64>(e.type)));
      }
    }
    c.feed(h);
    c.cover(h);
  }
  // `d` still has to denote x.m
  void check(D& x, const std::string& what) {
    structure(x.d, what);
    feed(x.d);
    if (x.d.getInputs().size() != x.m.nin ||
        x.d.getOutputs().size() != x.m.nout) {
      c.fail(id + "/structure", "after %s: %zu inputs and %zu outputs",
             what.c_str(), x.d.getInputs().size(), x.d.getOutputs().size());
    }
    const auto now = eval(x.d);
    if (!now.has_value()) {
      c.count("not-evaluated");
      return;
    }
    checks++;
    const double a = apart(*now, x.m);
    if (!(a < 1e-4)) {
      c.fail(id + "/map", "%s changed the linear map (by %.3g)", what.c_str(),
             a);
    }
    if (x.d.isIdentity()) {
      LMap one = x.m;
      one.a.assign(one.a.size(), 0);
      for (std::size_t i = 0; i < (std::size_t{1} << one.nin); i++) {
        one.a[(i << one.nin) | i] = 1;
      }
      c.count("identity");
      const double b = apart(*now, one);
      if (!(b < 1e-4)) {
        c.fail(id + "/identity",
               "isIdentity() holds for a diagram that is not (by %.3g)", b);
      }
    }
  }

  // ------------------------------------------------------ building
  zx::PiExpression phaseOf(u64 r) {
    const u64 k = r % 16;
    r >>= 4;
    if (k < 4) {
      return zx::PiExpression();
    }
    if (k < 6) {
      return zx::PiExpression(zx::PiRational(1, 1));
    }
    if (k < 10 && plan.knob("turns", 0) != 0 && r % 3 == 0) {
      // the same angles, some full turns further
      return zx::PiExpression(
          zx::PiRational(static_cast<int64_t>((r >> 4) % 41) - 20,
                         static_cast<int64_t>(1 + (r >> 12) % 2)));
    }
    if (k < 10) {
      return zx::PiExpression(zx::PiRational(k % 2 == 0 ? 1 : -1, 2));
    }
    if (k < 13) {
      return zx::PiExpression(
          zx::PiRational(static_cast<int64_t>(r % 16) - 8, 8));
    }
    if (k < 14) {
      return zx::PiExpression(
          zx::PiRational(static_cast<double>(r % 6283) / 1000.0 - 3.14));
    }
    if (plan.knob("sym", 0) % 2 == 0) {
      return zx::PiExpression(zx::PiRational(1, 4));
    }
    zx::PiExpression e(
        sym::Term<double>(vars[r % vars.size()], 1 + static_cast<double>(r % 3) / 2));
    e += zx::PiExpression(zx::PiRational(static_cast<int64_t>(r % 4), 4));
    return e;
  }

  void add(zx::ZXDiagram d, std::optional<LMap> m, const std::string& what) {
    D x{std::move(d), {}, false};
    structure(x.d, what);
    const auto now = eval(x.d);
    if (!m.has_value()) {
      if (!now.has_value() || norm(*now) < 1e-9) {
        return;
      }
      m = now;
    }
    if (norm(*m) < 1e-9) {
      return; // the zero map: scalars are not tracked
    }
    x.m = *m;
    x.zOnly = allZ(x.d);
    check(x, what);
    if (ds.size() >= 3) {
      ds.erase(ds.begin());
    }
    ds.push_back(std::move(x));
  }

  void raw(const Step& st, std::size_t n, const std::vector<Step>& parts) {
    zx::ZXDiagram d(n);
    std::vector<zx::Vertex> sp;
    auto link = [&](zx::Vertex a, zx::Vertex b, bool h) {
      if (a != b && !d.connected(a, b)) {
        d.addEdge(a, b,
                  h ? zx::EdgeType::Hadamard : zx::EdgeType::Simple);
      }
    };
    const bool graph = st.at(1) % 2 == 0;
    for (const auto& s : parts) {
      if (s.op == "sp") {
        sp.push_back(d.addVertex(0, 0, phaseOf(s.at(0)),
                                 !graph && s.at(1) % 2 == 1
                                     ? zx::VertexType::X
                                     : zx::VertexType::Z));
      }
    }
    if (!sp.empty()) {
      u64 r = st.at(2);
      for (std::size_t q = 0; q < n; q++) {
        r = mix(r);
        if (r % 8 == 0) {
          continue; // a bare wire
        }
        d.removeEdge(d.getInput(q), d.getOutput(q));
        link(d.getInput(q), sp[(r >> 8) % sp.size()], (r >> 4) % 3 == 0);
        link(d.getOutput(q), sp[(r >> 24) % sp.size()], (r >> 6) % 3 == 0);
      }
      for (const auto& s : parts) {
        if (s.op == "ed") {
          link(sp[s.at(0) % sp.size()], sp[s.at(1) % sp.size()],
               graph ? s.at(2) % 8 != 0 : s.at(2) % 2 == 0);
        } else if (s.op == "gd") { // a phase gadget on some of the spiders
          const auto hub = d.addVertex(
              -1, -1,
              zx::PiExpression(zx::PiRational(s.at(2) % 3 == 0 ? 1 : 0, 1)));
          const auto leaf = d.addVertex(-1, -2, phaseOf(s.at(1)));
          link(leaf, hub, s.at(2) % 16 != 1);
          if (s.at(2) % 16 == 5) {
            link(d.addVertex(-1, -2, phaseOf(s.at(1) >> 7)), hub, true);
          }
          for (std::size_t k = 0; k < sp.size() && k < 20; k++) {
            if (((s.at(0) >> k) & 1U) != 0) {
              link(sp[k], hub, (s.at(2) >> 8) % 32 != k);
            }
          }
        }
      }
    }
    add(std::move(d), std::nullopt, "building a diagram");
  }

  void circuit(const Step& st, std::size_t n, const std::vector<Step>& parts) {
    qc::QuantumComputation q;
    circ::Phys phys;
    phys.make(q, n, 0, 0, plan.knob("gap", 0));
    // the logical labels may have gaps, too
    std::vector<qc::Qubit> label(n);
    for (std::size_t i = 0; i < n; i++) {
      label[i] = plan.knob("gap", 0) % 2 == 0 ? static_cast<qc::Qubit>(i)
                                              : phys.at[i];
      q.initialLayout[phys.at[i]] = label[i];
    }
    const auto perm = circ::permutation(st.at(2), n);
    const bool lay = st.at(1) % 3 == 0;
    if (lay) {
      for (std::size_t i = 0; i < n; i++) {
        q.initialLayout[phys.at[i]] = label[perm[i]];
      }
    }
    Mat u = Mat::id(std::size_t{1} << n);
    Mat u2 = u; // with the known deviation of XXminusYY (theta -> -theta)
    bool xxm = false;
    std::unique_ptr<qc::CompoundOperation> comp;
    auto flush = [&] {
      if (comp != nullptr) {
        q.emplace_back(std::move(comp));
        comp = nullptr;
      }
    };
    auto gate = [&](const circ::GateInst& g, u64 symbolic = 0) {
      const auto pg = phys.on(g);
      auto op = circ::opOf(pg);
      if (symbolic != 0 && !g.p.empty()) {
        std::vector<qc::SymbolOrNumber> ps;
        for (std::size_t k = 0; k < g.p.size(); k++) {
          const u64 r = mix(symbolic + k);
          if (r % 3 == 0) {
            ps.emplace_back(g.p[k]);
            continue;
          }
          const auto& v = vars[(r >> 4) % vars.size()];
          const double co = static_cast<double>(1 + (r >> 8) % 5) / 2 *
                            ((r >> 16) % 2 == 0 ? 1 : -1);
          qc::Symbolic e(sym::Term<double>(v, co));
          e += g.p[k] - co * assign.at(v);
          ps.emplace_back(e);
        }
        op = std::make_unique<qc::SymbolicOperation>(pg.controls, pg.targets,
                                                     g.t, ps);
        c.count("symbolic-gate");
      }
      if (!zx::FunctionalityConstruction::transformableToZX(op.get())) {
        return;
      }
      const auto r = circ::refOf(g);
      auto at = [&](std::size_t k) { return lay ? perm[k] : k; };
      std::vector<std::size_t> t;
      for (const auto k : r.targets) {
        t.push_back(at(k));
      }
      std::vector<std::pair<std::size_t, bool>> cs;
      for (const auto& [k, p] : r.controls) {
        cs.emplace_back(at(k), p);
      }
      u = dn::mul(dn::embed(r.u, t, cs, n), u);
      Mat dev = r.u;
      if (g.t == qc::XXminusYY) {
        xxm = true;
        auto h = g;
        h.p[0] = -h.p[0];
        dev = circ::refOf(h).u;
      }
      u2 = dn::mul(dn::embed(dev, t, cs, n), u2);
      if (c.verbose) {
        c.ev("  gate %s", r.desc.c_str());
      }
      if (comp != nullptr) {
        comp->emplace_back(std::move(op));
      } else {
        q.emplace_back(std::move(op));
      }
    };
    for (const auto& s : parts) {
      if (s.op == "sp" || s.op == "g") {
        auto g = circ::decode(s.at(0), s.at(1) >> 1, s.at(2), s.at(3), n, 2);
        if (s.at(5) % 8 == 1) { // an angle that went round very often
          for (auto& a : g.p) {
            a += 4 * zx::PI * static_cast<double>(u64{1} << (s.at(5) >> 3) % 33);
          }
          c.count("huge-angle");
        } else if (s.at(5) % 8 == 2) {
          for (auto& a : g.p) {
            a = zx::PI / static_cast<double>(u64{1} << (s.at(5) >> 3) % 42);
          }
          c.count("tiny-angle");
        }
        gate(g,
             plan.knob("sym", 0) % 2 == 1 ? s.at(4) : 0);
      } else if (s.op == "cx3") { // three CX in a row, possibly a swap
        const auto o = circ::permutation(s.at(0), n);
        if (n > 1) {
          for (u64 k = 0; k < 3; k++) {
            circ::GateInst g;
            g.t = qc::X;
            const bool f = ((s.at(1) >> k) & 1U) != 0;
            g.targets = {static_cast<qc::Qubit>(f ? o[0] : o[1])};
            g.controls.emplace(static_cast<qc::Qubit>(f ? o[1] : o[0]),
                               (s.at(1) >> (4 + 2 * k)) % 4 == 0
                                   ? qc::Control::Type::Neg
                                   : qc::Control::Type::Pos);
            gate(g);
          }
        }
      } else if (s.op == "comp") {
        flush();
        if (s.at(0) % 2 == 0) {
          comp = std::make_unique<qc::CompoundOperation>();
        }
      } else if (s.op == "gph") {
        flush();
        if (s.at(0) % 2 == 0) {
          q.gphase(static_cast<double>(s.at(0) % 100) / 17);
        } else {
          q.emplace_back<qc::StandardOperation>(
              qc::Targets{}, qc::GPhase,
              std::vector<qc::fp>{static_cast<double>(s.at(0) % 100) / 17});
        }
      } else if (s.op == "bar") {
        flush();
        q.barrier();
      }
    }
    flush();
    LMap m;
    m.nin = m.nout = n;
    for (std::size_t o = 0; o < u.d; o++) {
      for (std::size_t i = 0; i < u.d; i++) {
        m.a.push_back(u.at(o, i));
      }
    }
    zx::ZXDiagram d;
    try {
      SutScope s;
      if (!zx::FunctionalityConstruction::transformableToZX(&q)) {
        c.fail(id + "/build", "a circuit of transformable gates is refused");
      }
      d = zx::FunctionalityConstruction::buildFunctionality(&q);
    } catch (const std::exception& e) {
      c.fail(id + "/build", "building the diagram failed: %s", e.what());
    }
    if (xxm) {
      LMap m2 = m;
      m2.a = u2.a;
      const auto now = eval(d);
      if (now.has_value() && !(apart(*now, m) < 1e-4) &&
          apart(*now, m2) < 1e-4) {
        c.count("known.xx_minus_yy");
        if (plan.knob("strict", 0) != 0) {
          c.fail(id + "/xx_minus_yy",
                 "the diagram of a circuit is that of the circuit with the "
                 "angle of its XXminusYY gates negated");
        }
        m = m2;
      }
    }
    add(std::move(d), m, fmt("translating a circuit of %zu operations", q.size()));
  }

  // ------------------------------------------------------ rewriting
  static constexpr const char* RULES[] = {
      "id",    "fusion",       "local-complementation", "pauli-pivot",
      "pivot", "gadget-pivot", "gadget-fusion"};
  void rule(D& x, const Step& st) {
    const u64 r = st.at(1) % 7;
    auto& d = x.d;
    if (r == 6) {
      if (!allZ(d)) {
        return;
      }
      std::vector<zx::Vertex> vs;
      for (const auto& [v, _] : d.getVertices()) {
        vs.push_back(v);
      }
      for (std::size_t k = 0; k < vs.size(); k++) {
        const auto v = vs[(st.at(2) + k) % vs.size()];
        bool hit = false;
        {
          SutScope s;
          hit = zx::checkAndFuseGadget(d, v);
        }
        if (hit) {
          c.ev("rule %s at %zu", RULES[r], v);
          c.count(std::string("rule.") + RULES[r]);
          check(x, fmt("%s at vertex %zu", RULES[r], v));
          return;
        }
      }
      return;
    }
    if (r == 0 || r == 2) {
      std::vector<zx::Vertex> m;
      for (const auto& [v, _] : d.getVertices()) {
        if (r == 0 ? zx::checkIdSimp(d, v) : zx::checkLocalComp(d, v)) {
          m.push_back(v);
        }
      }
      if (m.empty()) {
        return;
      }
      const auto v = m[st.at(2) % m.size()];
      {
        SutScope s;
        r == 0 ? zx::removeId(d, v) : zx::localComp(d, v);
      }
      c.ev("rule %s at %zu (of %zu)", RULES[r], v, m.size());
      c.count(std::string("rule.") + RULES[r]);
      check(x, fmt("%s at vertex %zu", RULES[r], v));
      return;
    }
    std::vector<std::pair<zx::Vertex, zx::Vertex>> m;
    auto test = [&](zx::Vertex a, zx::Vertex b) {
      return r == 1   ? zx::checkSpiderFusion(d, a, b)
             : r == 3 ? zx::checkPivotPauli(d, a, b)
             : r == 4 ? zx::checkPivot(d, a, b)
                      : zx::checkPivotGadget(d, a, b);
    };
    for (const auto& [a, b] : d.getEdges()) {
      if (test(a, b)) {
        m.emplace_back(a, b);
      }
      if (test(b, a)) {
        m.emplace_back(b, a);
      }
    }
    if (m.empty()) {
      return;
    }
    const auto [a, b] = m[st.at(2) % m.size()];
    {
      SutScope s;
      r == 1   ? zx::fuseSpiders(d, a, b)
      : r == 3 ? zx::pivotPauli(d, a, b)
      : r == 4 ? zx::pivot(d, a, b)
               : zx::pivotGadget(d, a, b);
    }
    c.ev("rule %s at %zu-%zu (of %zu)", RULES[r], a, b, m.size());
    c.count(std::string("rule.") + RULES[r]);
    check(x, fmt("%s at edge %zu-%zu", RULES[r], a, b));
  }

  static constexpr const char* PROCS[] = {
      "idSimp",        "spiderSimp",           "localCompSimp",
      "pivotPauliSimp", "pivotSimp",            "interiorCliffordSimp",
      "cliffordSimp",  "gadgetSimp",           "pivotgadgetSimp",
      "fullReduce",    "fullReduceApproximate"};
  static std::size_t call(u64 p, zx::ZXDiagram& d) {
    switch (p) {
    case 0:
      return zx::idSimp(d);
    case 1:
      return zx::spiderSimp(d);
    case 2:
      return zx::localCompSimp(d);
    case 3:
      return zx::pivotPauliSimp(d);
    case 4:
      return zx::pivotSimp(d);
    case 5:
      return zx::interiorCliffordSimp(d);
    case 6:
      return zx::cliffordSimp(d);
    case 7:
      return zx::gadgetSimp(d);
    case 8:
      return zx::pivotgadgetSimp(d);
    case 9:
      return zx::fullReduce(d);
    default:
      return zx::fullReduceApproximate(d, 1e-10);
    }
  }
  void proc(D& x, const Step& st) {
    u64 p = st.at(1) % 11;
    if (p == 7 && !allZ(x.d)) {
      p = 9;
    }
    const std::size_t before = x.d.getNVertices();
    if (st.at(2) % 4 == 1) {
      // the machine runs out of memory half way: the caller falls back on the
      // diagram it kept
      const auto kept = x.d;
      bool threw = false;
      auto work = x.d;
      arena::arm(1 + (st.at(2) >> 4) % 60);
      try {
        SutScope s;
        call(p, work);
      } catch (const std::bad_alloc&) {
        threw = true;
      }
      const bool fired = arena::disarm();
      if (fired) {
        c.count("fault.allocation");
      }
      if (!threw) {
        D y{work, x.m, false};
        check(y, std::string(PROCS[p]) + " (allocation fault survived)");
      }
      D z{kept, x.m, false};
      check(z, std::string(PROCS[p]) + " of a copy");
    }
    std::size_t n = 0;
    const u64 budget = 400000;
    arena::arm(budget, 1000000000);
    bool endless = false;
    const u64 a0 = arena::allocCount();
    try {
      SutScope s;
      n = call(p, x.d);
    } catch (const std::bad_alloc&) {
      endless = true;
    }
    arena::disarm();
    const u64 used = arena::allocCount() - a0;
    if (endless) {
      c.fail(id + "/endless", "%s did not stop on a diagram of %zu vertices",
             PROCS[p], before);
    }
    c.ev("%s: %zu simplifications, %zu -> %zu vertices, %llu allocations",
         PROCS[p], n, before, x.d.getNVertices(), (unsigned long long)used);
    c.count(std::string("proc.") + PROCS[p]);
    check(x, PROCS[p]);
    // exhaustive: nothing of its own kind is left to do
    auto left = [&](const char* what) {
      c.fail(id + "/not-exhausted", "%s left a match of %s", PROCS[p], what);
    };
    for (const auto& [v, _] : x.d.getVertices()) {
      if ((p == 0) && zx::checkIdSimp(x.d, v)) {
        left("the identity rule");
      }
      if ((p == 2) && zx::checkLocalComp(x.d, v)) {
        left("local complementation");
      }
    }
    if (p == 1 || p == 3 || p == 4 || p == 8) {
      for (const auto& [a, b] : x.d.getEdges()) {
        if ((p == 1 && zx::checkSpiderFusion(x.d, a, b)) ||
            (p == 3 && zx::checkPivotPauli(x.d, a, b)) ||
            (p == 4 && zx::checkPivot(x.d, a, b)) ||
            (p == 8 && zx::checkPivotGadget(x.d, a, b))) {
          left("its rule");
        }
      }
    }
  }

  void edit(D& x, const Step& st) {
    const u64 k = st.at(1) % 8;
    const u64 r = st.at(2);
    switch (k) {
    case 0: {
      SutScope s;
      x.d.toGraphlike();
    }
      if (!allZ(x.d)) {
        c.fail(id + "/structure", "toGraphlike left X spiders");
      }
      check(x, "toGraphlike");
      break;
    case 1: {
      {
        SutScope s;
        r % 2 == 0 ? (void)x.d.invert() : (void)(x.d = x.d.adjoint());
      }
      LMap m;
      m.nin = x.m.nout;
      m.nout = x.m.nin;
      m.a.assign(x.m.a.size(), 0);
      for (std::size_t o = 0; o < (std::size_t{1} << m.nout); o++) {
        for (std::size_t i = 0; i < (std::size_t{1} << m.nin); i++) {
          m.a[(o << m.nin) | i] = std::conj(x.m.a[(i << x.m.nin) | o]);
        }
      }
      x.m = m;
      check(x, "the adjoint");
      break;
    }
    case 2:
    case 3: {
      const D& y = ds[r % ds.size()];
      if (&y == &x || y.m.nin != y.m.nout || x.m.nin != x.m.nout) {
        return;
      }
      if (y.m.nin != x.m.nout) {
        bool refused = false;
        try {
          SutScope s;
          x.d.concat(y.d);
        } catch (const zx::ZXException&) {
          refused = true;
        }
        if (!refused) {
          c.fail(id + "/structure", "concat accepted diagrams of unequal size");
        }
        check(x, "a refused concat");
        return;
      }
      if (x.d.getNVertices() + y.d.getNVertices() > 90) {
        return;
      }
      {
        SutScope s;
        x.d.concat(y.d);
      }
      LMap m;
      m.nin = x.m.nin;
      m.nout = y.m.nout;
      m.a.assign(std::size_t{1} << (m.nin + m.nout), 0);
      for (std::size_t o = 0; o < (std::size_t{1} << m.nout); o++) {
        for (std::size_t j = 0; j < (std::size_t{1} << y.m.nin); j++) {
          for (std::size_t i = 0; i < (std::size_t{1} << m.nin); i++) {
            m.a[(o << m.nin) | i] +=
                y.m.a[(o << y.m.nin) | j] * x.m.a[(j << x.m.nin) | i];
          }
        }
      }
      const double scale = norm(x.m) * norm(y.m);
      x.m = m;
      if (norm(m) < 1e-7 * scale) {
        drop(x);
        return;
      }
      check(x, "concat");
      break;
    }
    case 4:
    case 5: {
      if (x.m.nin == 0 || x.m.nout == 0) {
        return;
      }
      const auto in = static_cast<zx::Qubit>(r % x.m.nin);
      const auto out = static_cast<zx::Qubit>(k == 4 && x.m.nin == x.m.nout
                                                  ? r % x.m.nin
                                                  : (r >> 8) % x.m.nout);
      {
        SutScope s;
        in == out ? x.d.makeAncilla(in) : x.d.makeAncilla(in, out);
      }
      LMap m;
      m.nin = x.m.nin - 1;
      m.nout = x.m.nout - 1;
      auto grow = [](std::size_t v, std::size_t at) {
        const std::size_t lo = v & ((std::size_t{1} << at) - 1);
        return ((v >> at) << (at + 1)) | lo;
      };
      for (std::size_t o = 0; o < (std::size_t{1} << m.nout); o++) {
        for (std::size_t i = 0; i < (std::size_t{1} << m.nin); i++) {
          m.a.push_back(
              x.m.a[(grow(o, static_cast<std::size_t>(out)) << x.m.nin) |
                    grow(i, static_cast<std::size_t>(in))]);
        }
      }
      const double scale = norm(x.m);
      x.m = m;
      if (norm(m) < 1e-7 * scale) {
        drop(x);
        return;
      }
      c.count("ancilla");
      check(x, "makeAncilla");
      break;
    }
    case 6: {
      SutScope s;
      x.d.removeDisconnectedSpiders();
    }
      check(x, "removeDisconnectedSpiders");
      break;
    default: {
      SutScope s;
      x.d.approximateCliffords(1e-11);
    }
      check(x, "approximateCliffords");
      break;
    }
  }
  void drop(D& x) {
    ds.erase(ds.begin() + (&x - ds.data()));
    c.count("zero-map");
  }

  void run() {
    for (int i = 0; i < 3; i++) {
      vars.emplace_back(fmt("t%d", i));
      assign[vars.back()] = 0.37 + 0.61 * i;
    }
    u64 acts = 0;
    for (std::size_t k = 0; k < plan.steps.size(); k++) {
      const auto& st = plan.steps[k];
      if (st.op == "knob") {
        continue;
      }
      c.steps++;
      if (st.op == "raw" || st.op == "circ") {
        std::vector<Step> parts;
        for (std::size_t j = k + 1; j < plan.steps.size(); j++) {
          const auto& o = plan.steps[j].op;
          if (o == "raw" || o == "circ" || o == "rule" || o == "proc" ||
              o == "edit") {
            break;
          }
          parts.push_back(plan.steps[j]);
        }
        const std::size_t n = st.at(0) % 5;
        if (st.op == "raw") {
          raw(st, n % 4, parts);
        } else {
          circuit(st, std::max<std::size_t>(n, 1), parts);
        }
        continue;
      }
      if (ds.empty()) {
        continue;
      }
      auto& x = ds[st.at(0) % ds.size()];
      if (st.op == "rule") {
        rule(x, st);
        acts++;
      } else if (st.op == "proc") {
        proc(x, st);
        acts++;
      } else if (st.op == "edit") {
        edit(x, st);
      } else if (st.op == "copy") {
        D y = x;
        if (ds.size() < 3) {
          ds.push_back(std::move(y));
        }
      }
    }
    c.nontrivial = acts > 2 && checks > 3;
  }
};
void run13(const Plan& p, Ctx& c) { S13(c, p).run(); }

Plan gen13(u64 seed) {
  Rng r(seed);
  Plan p;
  p.prop = "P13";
  p.add("knob", {r.below(2)}, "sym");
  p.add("knob", {r.chance(0.12) ? 1 + (r.next() >> 40) : 0}, "gap");
  p.add("knob", {r.chance(0.15) ? 1U : 0U}, "turns");
  const u64 nd = 1 + r.below(2);
  const u64 nq = r.chance(0.04) ? 0 : 1 + r.below(4);
  for (u64 d = 0; d < nd; d++) {
    if (r.chance(0.45)) {
      p.add("circ", {nq, r.next() >> 40, r.next() >> 40});
      const bool comps = r.chance(0.2);
      const u64 n = 1 + r.below(14);
      for (u64 i = 0; i < n; i++) {
        const double x = r.unit();
        if (x < 0.85) {
          p.add("g", {r.below(32), r.next() >> 30,
                      r.chance(0.7) ? (r.next() >> 40) | 0xff00ULL * 256
                                    : r.next() >> 40,
                      r.next() >> 40, r.chance(0.3) ? r.next() >> 40 : 0,
                      r.chance(0.05) ? r.next() >> 40 : 0});
        } else if (x < 0.92) {
          p.add("cx3", {r.next() >> 40,
                        (r.chance(0.6) ? (r.chance(0.5) ? 5 : 2) : r.below(8)) |
                            (r.chance(0.7) ? 0x550 : (r.next() >> 50) << 4)});
        } else if (x < 0.94 && comps) {
          p.add("comp", {r.below(2)});
        } else if (x < 0.96) {
          p.add("gph", {r.below(100)});
        } else if (x < 0.98) {
          p.add("bar");
        }
      }
    } else {
      p.add("raw", {nq, r.below(2), r.next() >> 20});
      const u64 n = 1 + r.below(10);
      for (u64 i = 0; i < n; i++) {
        p.add("sp", {r.next() >> 40, r.next() >> 60});
      }
      const u64 e = n + r.below(2 * n);
      for (u64 i = 0; i < e; i++) {
        p.add("ed", {r.below(n), r.below(n), r.next() >> 60});
      }
      if (r.chance(0.4)) {
        const u64 m = r.next();
        const u64 g = 1 + r.below(4);
        for (u64 i = 0; i < g; i++) {
          p.add("gd", {(r.chance(0.6) ? m : r.next() & r.next()) & 0xfff, r.next() >> 40,
                       r.next() >> 40});
        }
      }
    }
  }
  const u64 n = 2 + r.below(30);
  const double pr = r.chance(0.3) ? 0.3 : 0.75;
  const double pe = r.chance(0.5) ? 0.1 : 0.02;
  for (u64 i = 0; i < n; i++) {
    const double x = r.unit();
    if (x < pr) {
      p.add("rule", {r.below(3), r.below(7), r.next() >> 40});
    } else if (x < 1 - pe - 0.03) {
      p.add("proc", {r.below(3), r.below(11), r.next() >> 40});
    } else if (x < 1 - pe) {
      p.add("copy", {r.below(3)});
    } else {
      p.add("edit", {r.below(3), r.below(8), r.next() >> 40});
    }
  }
  return p;
}
const Register r13("P13", gen13, run13, 60);
} // namespace
