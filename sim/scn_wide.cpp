// Wide packages (9 to 150 qubits) for P01, P02, P03, P05, P06, P09 and P15:
// states and matrices are compared with a sparse reference simulation.
#include "wide.hpp"

#include "disk.hpp"
#include "pkgbase.hpp"
#include "rng64.hpp"

#include "dd/Export.hpp"
#include "dd/FunctionalityConstruction.hpp"
#include "dd/Simulation.hpp"

#include <algorithm>
#include <sstream>

using namespace sim;
using namespace ddu;
using circ::Ref;

namespace {
using Key = std::string; // character q is the value of qubit q
using SV = std::map<Key, cplx>;
constexpr std::size_t CAP = 160; // non-zero amplitudes of a reference state

void evalS(const dd::vEdge& e, std::size_t n, cplx w, Key& k, SV& out) {
  if (e.w.exactlyZero()) {
    return;
  }
  const cplx ww = w * wt(e.w);
  if (n == 0) {
    if (!e.isTerminal()) {
      throw Malformed{"non-terminal below the lowest level"};
    }
    if (std::abs(ww) > 1e-15) {
      out[k] += ww;
    }
    if (out.size() > 8 * CAP) {
      throw Malformed{"more non-zero amplitudes than possible"};
    }
    return;
  }
  if (e.isTerminal()) {
    throw Malformed{"non-zero terminal above the lowest level of a vector"};
  }
  if (e.p->v != n - 1) {
    throw Malformed{fmt("vector node at level %u where %zu is expected",
                        unsigned(e.p->v), n - 1)};
  }
  for (int b = 0; b < 2; b++) {
    k[n - 1] = b == 0 ? '0' : '1';
    evalS(e.p->e[b], n - 1, ww, k, out);
  }
}
SV evalS(const dd::vEdge& e, std::size_t n) {
  SV out;
  Key k(n, '0');
  evalS(e, n, 1, k, out);
  return out;
}
cplx entry(dd::mEdge e, std::size_t n, const Key& row, const Key& col) {
  cplx w = wt(e.w);
  for (std::size_t l = n; l > 0; l--) {
    if (e.w.exactlyZero()) {
      return 0;
    }
    if (e.isTerminal() || e.p->v < l - 1) {
      if (row[l - 1] != col[l - 1]) {
        return 0;
      }
      continue;
    }
    if (e.p->v != l - 1) {
      throw Malformed{"matrix node above its level"};
    }
    e = e.p->e[(row[l - 1] == '1' ? 2 : 0) + (col[l - 1] == '1' ? 1 : 0)];
    w *= wt(e.w);
  }
  return w;
}
double distS(const SV& a, const SV& b) {
  double m = 0;
  auto up = [&](double e) {
    if (!(e <= m)) {
      m = e;
    }
  };
  for (const auto& [k, x] : a) {
    const auto it = b.find(k);
    up(std::abs(x - (it == b.end() ? cplx(0) : it->second)));
  }
  for (const auto& [k, x] : b) {
    if (a.find(k) == a.end()) {
      up(std::abs(x));
    }
  }
  return m;
}
double norm2S(const SV& a) {
  double s = 0;
  for (const auto& [k, x] : a) {
    s += std::norm(x);
  }
  return s;
}
SV applyS(const Ref& r, const SV& v, const std::vector<std::size_t>* pos) {
  auto at = [&](std::size_t q) { return pos != nullptr ? (*pos)[q] : q; };
  SV out;
  const std::size_t nt = r.targets.size();
  for (const auto& [k, x] : v) {
    bool on = true;
    for (const auto& [q, p] : r.controls) {
      on = on && (k[at(q)] == '1') == p;
    }
    if (!on) {
      out[k] += x;
      continue;
    }
    std::size_t in = 0;
    for (const auto q : r.targets) {
      in = in * 2 + (k[at(q)] == '1' ? 1 : 0);
    }
    for (std::size_t o = 0; o < r.u.d; o++) {
      const cplx y = r.u.at(o, in) * x;
      if (y == cplx(0)) {
        continue;
      }
      Key n = k;
      for (std::size_t t = 0; t < nt; t++) {
        n[at(r.targets[t])] = ((o >> (nt - 1 - t)) & 1U) != 0 ? '1' : '0';
      }
      out[n] += y;
    }
  }
  for (auto it = out.begin(); it != out.end();) {
    it = std::abs(it->second) < 1e-14 ? out.erase(it) : std::next(it);
  }
  return out;
}

struct Wide : PkgBase {
  std::string pid;
  std::unique_ptr<dd::Package> Q;
  std::size_t qn = 9;
  struct WV {
    dd::vEdge e;
    std::size_t n;
    SV d;
    std::string what;
  };
  struct WM {
    dd::mEdge e;
    std::size_t n;
    std::vector<Ref> ops; // in the order of application
    bool dag;             // the adjoint of their product
    std::string what;
  };
  std::vector<WV> wv;
  std::vector<WM> wm;
  std::vector<std::size_t> hot;
  u64 work = 0;
  std::size_t baseNums = 0; // constants of a fresh package

  Wide(Ctx& ctx, const Plan& p, const char* prop)
      : PkgBase(ctx, p, prop), pid(prop) {}
  bool is(const char* p) const { return pid == p; }
  bool values() const { return is("P01") || is("P15"); }

  SV evalW(const dd::vEdge& e, std::size_t n, const char* what) {
    try {
      return evalS(e, n);
    } catch (const Malformed& m) {
      c.fail(id + "/wide-malformed", "%s on %zu qubits is malformed: %s", what,
             n, m.why.c_str());
    }
  }
  // the value of a freshly computed result; compared with `want` where the
  // property speaks about values
  SV judge(const dd::vEdge& e, std::size_t n, const SV& want,
           const char* what) {
    auto got = evalW(e, n, what);
    work++;
    if (values()) {
      double s = 1;
      for (const auto& [k, x] : want) {
        s = std::max(s, std::abs(x));
      }
      const double d = distS(got, want);
      if (!(d < 1e-9 * s)) {
        c.fail(id + "/wide-value:" + what,
               "%s on %zu qubits is off by %.3g (%zu amplitudes, %zu expected)",
               what, n, d, got.size(), want.size());
      }
    }
    c.ev("%s n=%zu: %zu amplitudes", what, n, got.size());
    c.cover(mix(n * 331 + got.size()) ^ mix(P->vUniqueTable.getNumEntries()));
    return got;
  }
  void keep(const dd::vEdge& e, std::size_t n, SV d, const char* what) {
    wv.push_back({e, n, std::move(d), what});
  }
  // column `k` of a matrix
  SV column(const WM& m, const Key& k) const {
    SV v{{k, 1}};
    if (m.dag) {
      for (auto it = m.ops.rbegin(); it != m.ops.rend(); ++it) {
        Ref r = *it;
        r.u = dn::dagger(r.u);
        v = applyS(r, v, nullptr);
      }
    } else {
      for (const auto& r : m.ops) {
        v = applyS(r, v, nullptr);
      }
    }
    return v;
  }
  SV applyM(const WM& m, const SV& x) const {
    SV v = x;
    if (m.dag) {
      for (auto it = m.ops.rbegin(); it != m.ops.rend(); ++it) {
        Ref r = *it;
        r.u = dn::dagger(r.u);
        v = applyS(r, v, nullptr);
      }
    } else {
      for (const auto& r : m.ops) {
        v = applyS(r, v, nullptr);
      }
    }
    return v;
  }
  Key randomKey(u64 r, std::size_t n) const {
    Key k(n, '0');
    for (std::size_t q = 0; q < n; q++) {
      if (mix(r + q * 7) % 3 == 0) {
        k[q] = '1';
      }
    }
    return k;
  }
  void judgeM(const WM& m, u64 r) {
    work++;
    if (!values()) {
      return;
    }
    for (u64 t = 0; t < 4; t++) {
      Key col = randomKey(r * 5 + t, m.n);
      for (const auto& o : m.ops) { // controls are often satisfied
        for (const auto& [q, p] : o.controls) {
          if (mix(r + q + t) % 4 != 0) {
            col[q] = p ? '1' : '0';
          }
        }
      }
      const auto want = column(m, col);
      double d = 0;
      for (const auto& [row, x] : want) {
        cplx got;
        try {
          got = entry(m.e, m.n, row, col);
        } catch (const Malformed& mf) {
          c.fail(id + "/wide-malformed", "%s is malformed: %s", m.what.c_str(),
                 mf.why.c_str());
        }
        d = std::max(d, std::abs(got - x));
        if (!(d < 1e-9)) {
          break;
        }
      }
      if (!(d < 1e-9)) {
        c.fail(id + "/wide-value:" + m.what, "an entry of a %s on %zu qubits "
               "is off by %.3g", m.what.c_str(), m.n, d);
      }
      // a row nobody reaches
      const Key row = randomKey(r * 11 + t, m.n);
      const auto it = want.find(row);
      const auto got = entry(m.e, m.n, row, col);
      if (!(std::abs(got - (it == want.end() ? cplx(0) : it->second)) < 1e-9)) {
        c.fail(id + "/wide-value:" + m.what, "an entry of a %s on %zu qubits "
               "should be zero and is %.3g", m.what.c_str(), m.n,
               std::abs(got));
      }
      // the public readers
      std::string path(m.n, '0');
      for (std::size_t q = 0; q < m.n; q++) {
        path[q] = static_cast<char>('0' + (row[q] == '1' ? 2 : 0) +
                                    (col[q] == '1' ? 1 : 0));
      }
      if (!(std::abs(m.e.getValueByPath(m.n, path) - got) < 1e-9)) {
        c.fail(id + "/wide-value:read(m)", "getValueByPath disagrees");
      }
      if (m.n < 64) {
        std::size_t i = 0;
        std::size_t j = 0;
        for (std::size_t q = 0; q < m.n; q++) {
          i |= static_cast<std::size_t>(row[q] == '1') << q;
          j |= static_cast<std::size_t>(col[q] == '1') << q;
        }
        if (!(std::abs(m.e.getValueByIndex(m.n, i, j) - got) < 1e-9)) {
          c.fail(id + "/wide-value:read(m)", "getValueByIndex disagrees");
        }
      }
    }
  }
  void verify(const char* when) {
    for (auto& h : wv) {
      const auto d = evalW(h.e, h.n, h.what.c_str());
      const double e = distS(d, h.d);
      if (!(e < 1e-9)) {
        c.fail(id + "/wide-held-changed",
               "a held state (%s) on %zu qubits changed by %.3g during %s",
               h.what.c_str(), h.n, e, when);
      }
    }
    for (auto& h : wm) {
      judgeM(h, work);
    }
  }
  void only(const char* when) {
    gc();
    Reach r;
    for (auto& h : wv) {
      r.add(h.e);
    }
    for (auto& h : wm) {
      r.add(h.e);
    }
    const auto v = P->vUniqueTable.getNumEntries();
    const auto m = P->mUniqueTable.getNumEntries();
    if (v != r.v.size() || m != r.m.size()) {
      c.fail(id + "/wide-left-over",
             "after %s and a collection the package stores %zu vector and %zu "
             "matrix nodes, but only %zu and %zu belong to held results",
             when, v, m, r.v.size(), r.m.size());
    }
    if (is("P02")) {
      const auto x = P->cUniqueTable.getStats().numEntries;
      if (x < r.nums.size() || x > r.nums.size() + baseNums) {
        c.fail(id + "/wide-numbers",
               "after %s and a collection the package stores %zu numbers, "
               "held results use %zu",
               when, static_cast<std::size_t>(x), r.nums.size());
      }
    }
  }
  void dropW(std::size_t cap) {
    while (wv.size() > cap) {
      P->decRef(wv.front().e);
      wv.erase(wv.begin());
    }
    while (wm.size() > cap) {
      P->decRef(wm.front().e);
      wm.erase(wm.begin());
    }
  }

  // ------------------------------------------------------------------ gates
  circ::GateInst gate(u64 ty, u64 q, u64 cs, u64 ps, std::size_t n) {
    static const std::vector<int> discrete = {0, 1, 2, 3,  4,  5,  6,  7,  8,
                                              9, 10, 11, 12, 19, 20, 21, 22,
                                              23, 24, 25};
    const auto& defs = circ::gateDefs();
    const bool canon = is("P03");
    const auto& d = canon ? defs[discrete[ty % discrete.size()]]
                          : defs[ty % defs.size()];
    circ::GateInst g;
    g.t = d.t;
    std::size_t nc = 0;
    const u64 k = cs % 16;
    if (k < 7) {
      nc = 1 + (k > 3 ? 1 : 0) + (k > 5 ? 1 : 0);
    } else if (k == 7) {
      nc = 4 + (cs >> 8) % 9;
    }
    nc = std::min(nc, n - static_cast<std::size_t>(d.nq));
    std::vector<std::size_t> sel;
    u64 s = q;
    while (sel.size() < static_cast<std::size_t>(d.nq) + nc) {
      s = mix(s + 3);
      std::size_t x = (s >> 9) % n;
      if (s % 4 != 0 && !hot.empty()) {
        x = hot[(s >> 9) % hot.size()] % n;
      }
      if (std::find(sel.begin(), sel.end(), x) == sel.end()) {
        sel.push_back(x);
      }
    }
    for (int t = 0; t < d.nq; t++) {
      g.targets.push_back(static_cast<qc::Qubit>(sel[t]));
    }
    for (std::size_t t = d.nq; t < sel.size(); t++) {
      g.controls.emplace(static_cast<qc::Qubit>(sel[t]),
                         mix(cs + t) % 3 == 0 ? qc::Control::Type::Neg
                                              : qc::Control::Type::Pos);
    }
    for (int t = 0; t < d.np; t++) {
      g.p.push_back(gt::ang(mix(ps + static_cast<u64>(t) * 77)));
    }
    return g;
  }
  circ::GateInst gate(const Step& st, std::size_t i, std::size_t n) {
    return gate(st.at(i), st.at(i + 1), st.at(i + 2), st.at(i + 3), n);
  }
  // whether a state stays within reach of the reference (and, for P03, of
  // amplitudes that are clearly different from zero)
  bool fits(const SV& v) const {
    if (v.empty() || v.size() > CAP) {
      return false;
    }
    if (is("P03")) {
      for (const auto& [k, x] : v) {
        if (std::abs(x) < 0.05) {
          return false;
        }
      }
    }
    return true;
  }

  // ------------------------------------------------------------------ states
  void newState(const Step& st) {
    const u64 r = st.at(1);
    const std::size_t n = st.at(2) % 4 == 0 ? 1 + (st.at(2) >> 2) % nq : nq;
    SV want;
    dd::vEdge e;
    const char* what = "";
    switch (st.at(0) % 6) {
    case 0:
      e = P->makeZeroState(n);
      want[Key(n, '0')] = 1;
      what = "makeZeroState";
      break;
    case 1: {
      const auto k = randomKey(r, n);
      std::vector<bool> b(n);
      for (std::size_t q = 0; q < n; q++) {
        b[q] = k[q] == '1';
      }
      e = P->makeBasisState(n, b);
      want[k] = 1;
      what = "makeBasisState";
      break;
    }
    case 2: {
      std::vector<dd::BasisStates> b(n, dd::BasisStates::zero);
      want[Key(n, '0')] = 1;
      const double h = std::sqrt(0.5);
      for (std::size_t q = 0; q < n; q++) {
        u64 s = mix(r + q);
        const bool isHot = std::find(hot.begin(), hot.end(), q) != hot.end();
        if (!isHot || want.size() > CAP / 8) {
          s = s % 2;
        }
        b[q] = static_cast<dd::BasisStates>(s % 6);
        const cplx i(0, 1);
        const cplx f[6][2] = {{1, 0}, {0, 1}, {h, h}, {h, -h}, {h, h * i}, {h, -h * i}};
        SV w;
        for (const auto& [k, x] : want) {
          for (int t = 0; t < 2; t++) {
            if (f[s % 6][t] != cplx(0)) {
              Key k2 = k;
              k2[q] = t == 0 ? '0' : '1';
              w[k2] += x * f[s % 6][t];
            }
          }
        }
        want = w;
      }
      e = P->makeBasisState(n, b);
      what = "makeBasisState(product)";
      break;
    }
    case 3:
    case 4:
      e = P->makeGHZState(n);
      want[Key(n, '0')] = std::sqrt(0.5);
      want[Key(n, '1')] += std::sqrt(0.5);
      what = "makeGHZState";
      break;
    default:
      if (is("P03") && n > 100) {
        return;
      }
      e = P->makeWState(n);
      for (std::size_t q = 0; q < n; q++) {
        Key k(n, '0');
        k[q] = '1';
        want[k] = 1 / std::sqrt(static_cast<double>(n));
      }
      what = "makeWState";
      break;
    }
    keep(e, n, judge(e, n, want, what), what);
  }
  void applyGate(const Step& st) {
    if (wv.empty()) {
      return;
    }
    const std::size_t i = st.at(0) % wv.size();
    const WV h = wv[i];
    if (h.n < 2) {
      return;
    }
    const auto g = gate(st, 1, h.n);
    if (g.controls.size() + g.targets.size() > h.n) {
      return;
    }
    const auto r = circ::refOf(g);
    const SV want = applyS(r, h.d, nullptr);
    if (!fits(want)) {
      c.count("skipped-dense");
      return;
    }
    const auto op = circ::opOf(g);
    dd::vEdge e;
    if (st.at(5) % 3 == 0) {
      const auto m = dd::getDD(*op, *P);
      e = P->applyOperation(m, h.e); // consumes the hold
      wv.erase(wv.begin() + static_cast<long>(i));
    } else {
      const auto m = dd::getDD(*op, *P);
      e = P->multiply(m, h.e);
      P->incRef(e);
      if (st.at(5) % 3 == 1) {
        P->decRef(h.e);
        wv.erase(wv.begin() + static_cast<long>(i));
      }
    }
    keep(e, h.n, judge(e, h.n, want, "gate application"), "gate application");
    if (st.at(5) / 3 % 4 == 0) {
      verify("gate application");
    }
  }
  void newMatrix(const Step& st) {
    const u64 r = st.at(1);
    const u64 len = 1 + r % 4;
    WM m{P->makeIdent(), nq, {}, false, "matrix product"};
    P->incRef(m.e);
    for (u64 k = 0; k < len; k++) {
      const u64 s = mix(r + k);
      const auto g = gate(s, s >> 7, s >> 17, s >> 29, nq);
      const auto op = circ::opOf(g);
      const auto x = st.at(2) % 2 == 0 ? dd::getDD(*op, *P)
                                       : dd::getInverseDD(*op, *P);
      auto ref = circ::refOf(g);
      if (st.at(2) % 2 != 0) {
        ref.u = dn::dagger(ref.u);
      }
      if (st.at(2) / 2 % 2 == 0) {
        m.e = P->applyOperation(x, m.e);
      } else {
        const auto y = P->multiply(x, m.e);
        P->incRef(y);
        P->decRef(m.e);
        m.e = y;
      }
      m.ops.push_back(ref);
    }
    if (st.at(2) / 4 % 3 == 0) {
      const auto y = P->conjugateTranspose(m.e);
      P->incRef(y);
      P->decRef(m.e);
      m.e = y;
      m.dag = true;
      m.what = "conjugateTranspose";
    }
    judgeM(m, r);
    wm.push_back(m);
    c.ev("matrix of %llu gates, %zu nodes", (unsigned long long)len,
         m.e.size());
  }
  void applyMatrix(const Step& st) {
    if (wm.empty() || wv.empty()) {
      return;
    }
    const WM m = wm[st.at(0) % wm.size()];
    const WV h = wv[st.at(1) % wv.size()];
    if (h.n != m.n) {
      return;
    }
    const auto want = applyM(m, h.d);
    if (!fits(want)) {
      return;
    }
    const auto e = P->multiply(m.e, h.e);
    P->incRef(e);
    keep(e, h.n, judge(e, h.n, want, "matrix-vector product"),
         "matrix-vector product");
    if (is("P01")) {
      // <h|M|h> of the Hermitian part is covered by innerProduct below
      cplx in = 0;
      for (const auto& [k, x] : h.d) {
        const auto it = want.find(k);
        if (it != want.end()) {
          in += std::conj(x) * it->second;
        }
      }
      const auto z = P->innerProduct(h.e, e);
      const double f = P->fidelity(h.e, e);
      if (!(std::abs(cplx(z.r, z.i) - in) < 1e-9) ||
          !(std::abs(f - std::norm(in)) < 1e-9)) {
        c.fail(id + "/wide-value:innerProduct",
               "inner product %.9g%+.9gi on %zu qubits, expected "
               "%.9g%+.9gi (fidelity %.9g)",
               z.r, z.i, h.n, in.real(), in.imag(), f);
      }
      const auto o = P->add(m.e, P->conjugateTranspose(m.e));
      const double x = P->expectationValue(o, h.e);
      if (!(std::abs(x - 2 * in.real()) < 1e-8)) {
        c.fail(id + "/wide-value:expectationValue",
               "expectation value %.9g on %zu qubits, expected %.9g", x, h.n,
               2 * in.real());
      }
    }
  }
  void combine(const Step& st) {
    if (wv.empty()) {
      return;
    }
    const WV a = wv[st.at(1) % wv.size()];
    const WV b = wv[st.at(2) % wv.size()];
    SV want;
    switch (st.at(0) % 4) {
    case 0: // sum
      if (a.n != b.n || is("P03")) {
        return;
      }
      want = a.d;
      for (const auto& [k, x] : b.d) {
        want[k] += x;
      }
      for (auto it = want.begin(); it != want.end();) {
        it = std::abs(it->second) < 1e-14 ? want.erase(it) : std::next(it);
      }
      if (fits(want)) {
        const auto e = P->add(a.e, b.e);
        P->incRef(e);
        if (values()) {
          (void)judge(e, a.n, want, "sum");
        }
        P->decRef(e);
      }
      break;
    case 1: { // Kronecker product (a on top)
      if (a.n + b.n > nq || a.d.size() * b.d.size() > CAP) {
        return;
      }
      for (const auto& [k, x] : a.d) {
        for (const auto& [l, y] : b.d) {
          want[l + k] = x * y;
        }
      }
      if (!fits(want)) {
        return;
      }
      const auto e = P->kronecker(a.e, b.e, b.n);
      P->incRef(e);
      keep(e, a.n + b.n, judge(e, a.n + b.n, want, "Kronecker product"),
           "Kronecker product");
      break;
    }
    case 2: { // conjugate
      for (const auto& [k, x] : a.d) {
        want[k] = std::conj(x);
      }
      const auto e = P->conjugate(a.e);
      P->incRef(e);
      keep(e, a.n, judge(e, a.n, want, "conjugate"), "conjugate");
      break;
    }
    default: { // transfer there and back
      if (a.n > qn) {
        return;
      }
      auto src = a.e;
      auto t = Q->transfer(src);
      Q->incRef(t);
      (void)judge(t, a.n, a.d, "transfer");
      const auto e = P->transfer(t);
      P->incRef(e);
      Q->decRef(t);
      keep(e, a.n, judge(e, a.n, a.d, "transfer"), "transfer");
      if (is("P03") && (e.p != a.e.p || !e.w.approximatelyEquals(a.e.w))) {
        c.fail(id + "/wide-distinct",
               "a state of %zu qubits transferred there and back has another "
               "diagram",
               a.n);
      }
      break;
    }
    }
  }
  void read(const Step& st) {
    if (wv.empty()) {
      return;
    }
    const WV& h = wv[st.at(0) % wv.size()];
    auto want = [&](const Key& k) {
      const auto it = h.d.find(k);
      return it == h.d.end() ? cplx(0) : it->second;
    };
    std::vector<Key> ks;
    for (const auto& [k, x] : h.d) {
      if (ks.size() < 8 || mix(st.at(1) + ks.size()) % 4 == 0) {
        ks.push_back(k);
      }
    }
    const std::size_t some = std::min<std::size_t>(ks.size(), 6);
    for (std::size_t i = 0; i < some; i++) { // neighbours
      Key k = ks[i];
      const auto q = mix(st.at(1) + i) % h.n;
      k[q] = k[q] == '0' ? '1' : '0';
      ks.push_back(k);
    }
    for (const auto& k : ks) {
      const cplx a = h.e.getValueByPath(h.n, k);
      cplx b = a;
      if (h.n < 64) {
        std::size_t i = 0;
        for (std::size_t q = 0; q < h.n; q++) {
          i |= static_cast<std::size_t>(k[q] == '1') << q;
        }
        b = h.e.getValueByIndex(i);
      }
      if (!(std::abs(a - want(k)) < 1e-9) || !(std::abs(b - want(k)) < 1e-9)) {
        c.fail(id + "/wide-value:read(v)",
               "reading an amplitude of a state on %zu qubits gives %.3g, "
               "expected %.3g",
               h.n, std::abs(a), std::abs(want(k)));
      }
    }
    if (h.n < 64) {
      const auto s = h.e.getSparseVector();
      SV got;
      for (const auto& [i, x] : s) {
        Key k(h.n, '0');
        for (std::size_t q = 0; q < h.n; q++) {
          k[q] = ((i >> q) & 1U) != 0 ? '1' : '0';
        }
        got[k] += x;
      }
      if (!(distS(got, h.d) < 1e-9)) {
        c.fail(id + "/wide-value:getSparseVector",
               "the sparse vector of a state on %zu qubits is off by %.3g",
               h.n, distS(got, h.d));
      }
    }
    Reach r;
    r.add(h.e);
    if (h.e.size() != r.v.size() + 1) {
      c.fail(id + "/wide-value:size", "size() is %zu, diagram has %zu nodes",
             h.e.size(), r.v.size() + 1);
    }
  }
  // trace, partial trace, ancilla reduction of a product with few active qubits
  void reduce(const Step& st) {
    if (wm.empty()) {
      return;
    }
    const std::size_t mi = st.at(1) % wm.size();
    const WM m = wm[mi];
    std::vector<std::size_t> act;
    for (const auto& o : m.ops) {
      for (const auto t : o.targets) {
        act.push_back(t);
      }
      for (const auto& [q, p] : o.controls) {
        act.push_back(q);
      }
    }
    std::sort(act.begin(), act.end());
    act.erase(std::unique(act.begin(), act.end()), act.end());
    const bool small = act.size() <= 7;
    if (st.at(0) % 3 == 0 && small) {
      // normalised trace over the active qubits
      cplx want = 0;
      for (std::size_t a = 0; a < (std::size_t{1} << act.size()); a++) {
        Key k(m.n, '0');
        for (std::size_t i = 0; i < act.size(); i++) {
          k[act[i]] = ((a >> i) & 1U) != 0 ? '1' : '0';
        }
        const auto col = column(m, k);
        const auto it = col.find(k);
        if (it != col.end()) {
          want += it->second;
        }
      }
      want /= std::pow(2., static_cast<double>(act.size()));
      const auto z = P->trace(m.e, m.n);
      if (!(std::abs(cplx(z.r, z.i) - want) < 1e-9)) {
        c.fail(id + "/wide-value:trace",
               "normalised trace %.9g%+.9gi on %zu qubits, expected "
               "%.9g%+.9gi",
               z.r, z.i, m.n, want.real(), want.imag());
      }
      const bool near = P->isCloseToIdentity(m.e);
      (void)near;
    } else if (st.at(0) % 3 == 1) {
      // tracing out qubits nothing acts on keeps the rest
      std::vector<bool> el(m.n, false);
      std::vector<std::size_t> rest;
      for (std::size_t q = 0; q < m.n; q++) {
        el[q] = !std::binary_search(act.begin(), act.end(), q) &&
                mix(st.at(2) + q) % 3 != 0;
        if (!el[q]) {
          rest.push_back(q);
        }
      }
      WM t = m;
      t.e = P->partialTrace(m.e, el);
      t.n = rest.size();
      t.what = "partialTrace";
      auto newPos = [&](std::size_t q) {
        return static_cast<std::size_t>(
            std::lower_bound(rest.begin(), rest.end(), q) - rest.begin());
      };
      for (auto& o : t.ops) {
        for (auto& q : o.targets) {
          q = newPos(q);
        }
        for (auto& [q, p] : o.controls) {
          q = newPos(q);
        }
      }
      if (t.n > 0) {
        judgeM(t, st.at(2));
      }
    } else {
      // ancilla reduction: columns with a set ancilla vanish
      std::vector<bool> mask(m.n, false);
      for (std::size_t q = 0; q < m.n; q++) {
        mask[q] = mix(st.at(2) + q) % 3 == 0;
      }
      P->incRef(m.e);
      const auto e = P->reduceAncillae(m.e, mask, true);
      for (u64 t = 0; t < 6; t++) {
        Key col = randomKey(st.at(2) * 3 + t, m.n);
        if (t % 3 != 0) {
          for (std::size_t q = 0; q < m.n; q++) {
            if (mask[q]) {
              col[q] = '0';
            }
          }
          if (t % 3 == 2) {
            col[mix(st.at(2) + t) % m.n] = '1';
          }
        }
        bool gone = false;
        for (std::size_t q = 0; q < m.n; q++) {
          gone = gone || (mask[q] && col[q] == '1');
        }
        for (const auto& [row, x] : column(m, col)) {
          const auto got = entry(e, m.n, row, col);
          if (values() && !(std::abs(got - (gone ? cplx(0) : x)) < 1e-9)) {
            c.fail(id + "/wide-value:reduceAncillae",
                   "an entry of the reduced matrix on %zu qubits is off by "
                   "%.3g",
                   m.n, std::abs(got - (gone ? cplx(0) : x)));
          }
        }
      }
      P->decRef(e);
    }
    work++;
  }
  // garbage reduction of states
  void reduceV(const Step& st) {
    if (wv.empty()) {
      return;
    }
    const std::size_t i = st.at(0) % wv.size();
    const WV h = wv[i];
    std::vector<bool> mask(h.n, false);
    for (std::size_t q = 0; q < h.n; q++) {
      mask[q] = mix(st.at(1) + q) % 4 == 0;
    }
    std::map<Key, double> want;
    for (const auto& [k, x] : h.d) {
      Key o = k;
      for (std::size_t q = 0; q < h.n; q++) {
        if (mask[q]) {
          o[q] = '0';
        }
      }
      want[o] += std::norm(x);
    }
    dd::vEdge arg = h.e;
    const auto e = P->reduceGarbage(arg, mask, false);
    wv.erase(wv.begin() + static_cast<long>(i));
    const auto got = evalW(e, h.n, "reduceGarbage");
    if (values()) {
      double d = 0;
      for (const auto& [k, x] : want) {
        const auto it = got.find(k);
        d = std::max(d, std::abs(std::sqrt(x) - (it == got.end()
                                                     ? 0.
                                                     : std::abs(it->second))));
      }
      if (got.size() > want.size() || !(d < 1e-9)) {
        c.fail(id + "/wide-value:reduceGarbage(v)",
               "reduceGarbage on %zu qubits is off by %.3g (%zu amplitudes, "
               "%zu expected)",
               h.n, d, got.size(), want.size());
      }
    }
    P->decRef(e);
    work++;
  }
  // P03: another way to the same state
  void again(const Step& st) {
    if (wv.empty()) {
      return;
    }
    const WV h = wv[st.at(0) % wv.size()];
    if (h.n < 16) {
      return;
    }
    const auto g = gate(st, 1, h.n);
    const auto r = circ::refOf(g);
    if (!fits(applyS(r, h.d, nullptr))) {
      return;
    }
    const auto op = circ::opOf(g);
    const auto m = dd::getDD(*op, *P);
    dd::vEdge e;
    if (st.at(5) % 2 == 0) { // there and back
      const auto t = P->multiply(m, h.e);
      e = P->multiply(dd::getInverseDD(*op, *P), t);
    } else { // the matrix of both, which is the identity
      const auto i = P->multiply(dd::getInverseDD(*op, *P), m);
      if (!i.isIdentity(false)) {
        // a phase or rounding would show here
        c.fail(id + "/wide-distinct",
               "a gate on %zu qubits times its inverse is not the identity "
               "diagram (%s)",
               h.n, g.text().c_str());
      }
      e = P->multiply(i, h.e);
    }
    if (e.p != h.e.p || !e.w.approximatelyEquals(h.e.w)) {
      c.fail(id + "/wide-distinct",
             "a state of %zu qubits and the same state after a gate and its "
             "inverse have different diagrams (%s)",
             h.n, g.text().c_str());
    }
    work++;
    c.ev("again %s", g.text().c_str());
    c.cover(mix(h.n * 33 + h.d.size()) ^ mix(P->mUniqueTable.getNumEntries()));
  }

  // ------------------------------------------------------------------ P05
  static u64 wordAt(double u) {
    return static_cast<u64>(u * 18446744073709551616.0);
  }
  void measure(const Step& st) {
    if (wv.empty()) {
      return;
    }
    const std::size_t i = st.at(1) % wv.size();
    const WV h = wv[i];
    if (std::abs(norm2S(h.d) - 1) > 1e-8) {
      return;
    }
    const std::size_t q =
        st.at(2) % 3 == 0 ? (st.at(2) >> 3) % h.n
                          : hot[(st.at(2) >> 3) % hot.size()] % h.n;
    double p1 = 0;
    double p0 = 0;
    for (const auto& [k, x] : h.d) {
      (k[q] == '1' ? p1 : p0) += std::norm(x);
    }
    auto after = [&](bool one) {
      SV w;
      const double p = one ? p1 : p0;
      for (const auto& [k, x] : h.d) {
        if ((k[q] == '1') == one) {
          w[k] = x / std::sqrt(p);
        }
      }
      return w;
    };
    auto check = [&](const SV& got, const SV& want, const char* what) {
      const double d = distS(got, want);
      if (!(d < 1e-8)) {
        c.fail(id + "/wide-state", "%s on %zu qubits leaves a state off by %.3g",
               what, h.n, d);
      }
    };
    switch (st.at(0) % 4) {
    case 0: { // probabilities
      const auto [a, b] = dd::Package::determineMeasurementProbabilities(
          h.e, static_cast<dd::Qubit>(q));
      if (!(std::abs(a - p0) < 1e-9) || !(std::abs(b - p1) < 1e-9)) {
        c.fail(id + "/wide-probabilities",
               "probabilities of qubit %zu of %zu are %.6g and %.6g, expected "
               "%.6g and %.6g",
               q, h.n, a, b, p0, p1);
      }
      break;
    }
    case 1: { // one qubit, stratified
      const int K = 8;
      int ones = 0;
      for (int s = 0; s < K; s++) {
        auto e = h.e;
        P->incRef(e);
        auto mt = simrng::engine({wordAt((s + 0.5) / K)}, st.at(3));
        const char o = P->measureOneCollapsing(e, static_cast<dd::Qubit>(q), mt);
        ones += o == '1' ? 1 : 0;
        if ((o == '1' ? p1 : p0) < 1e-20) {
          c.fail(id + "/wide-impossible",
                 "qubit %zu of %zu was measured as %c with probability zero", q,
                 h.n, o);
        }
        check(evalW(e, h.n, "measureOneCollapsing"), after(o == '1'),
              "measureOneCollapsing");
        P->decRef(e);
        if (s == 0) {
          only("measuring one qubit");
        }
      }
      if (std::abs(ones - p1 * K) > 1.001) {
        c.fail(id + "/wide-distribution",
               "qubit %zu of %zu was 1 for %d of %d evenly spread random "
               "numbers, probability %.4f",
               q, h.n, ones, K, p1);
      }
      break;
    }
    case 2: { // forced outcome
      const bool zero = p0 > 1e-3 && (p1 < 1e-3 || st.at(3) % 2 == 0);
      auto e = h.e;
      P->performCollapsingMeasurement(e, static_cast<dd::Qubit>(q),
                                      zero ? p0 : p1, zero);
      wv.erase(wv.begin() + static_cast<long>(i));
      const auto got = evalW(e, h.n, "performCollapsingMeasurement");
      check(got, after(!zero), "performCollapsingMeasurement");
      keep(e, h.n, got, "collapsed state");
      break;
    }
    default: { // all qubits
      const bool collapse = st.at(3) % 2 == 0;
      std::vector<u64> words(64);
      for (std::size_t k = 0; k < words.size(); k++) {
        words[k] = mix(st.at(3) * 77 + k);
      }
      auto mt = simrng::engine(words, st.at(3));
      auto e = h.e;
      if (collapse) {
        P->incRef(e);
      }
      const auto s = P->measureAll(e, collapse, mt);
      Key k(s.rbegin(), s.rend());
      const auto it = h.d.find(k);
      if (s.size() != h.n || it == h.d.end() || std::norm(it->second) < 1e-20) {
        c.fail(id + "/wide-impossible",
               "measuring all of %zu qubits gave %s, which has probability "
               "zero",
               h.n, s.c_str());
      }
      if (collapse) {
        check(evalW(e, h.n, "measureAll"), {{k, 1}}, "measureAll");
        P->decRef(e);
      } else if (e != h.e) {
        c.fail(id + "/wide-state", "a measurement without collapse replaced "
                                   "the state");
      }
      break;
    }
    }
    work++;
    verify("a measurement");
    c.ev("measure %llu q=%zu p1=%.4f", (unsigned long long)(st.at(0) % 4), q,
         p1);
    c.cover(mix(h.n * 77 + h.d.size()) ^ mix(q * 4 + st.at(0) % 4));
  }

  // ------------------------------------------------------------------ P09
  u64 nfile = 0;
  void store(const Step& st) {
    const bool bin = st.at(2) % 2 == 0;
    const bool mat = st.at(0) % 3 == 0 && !wm.empty();
    if (!mat && wv.empty()) {
      return;
    }
    const WM m = mat ? wm[st.at(1) % wm.size()] : WM{};
    const WV v = mat ? WV{} : wv[st.at(1) % wv.size()];
    const std::size_t n = mat ? m.n : v.n;
    if (!mat && v.e.isTerminal()) {
      return;
    }
    const std::string path =
        fmt("/simdisk/w%llu", static_cast<unsigned long long>(nfile++));
    const auto kind = static_cast<disk::Kind>(st.at(3) % 7);
    std::ostringstream ref;
    mat ? dd::serialize(m.e, ref, bin) : dd::serialize(v.e, ref, bin);
    const auto full = ref.str();
    disk::set({kind, st.at(4) % (full.size() + 1), st.at(4)});
    bool told = false;
    try {
      mat ? dd::serialize(m.e, path, bin) : dd::serialize(v.e, path, bin);
    } catch (const std::exception&) {
      told = true;
    }
    const bool fired = disk::fired();
    if (fired) {
      c.count("fault.write");
    }
    disk::set({});
    if (told != fired) {
      c.fail(id + (told ? "/wide-spurious-error" : "/wide-write-error-hidden"),
             "writing a %s of %zu qubits: disk failed %d, writer reported %d",
             mat ? "matrix" : "state", n, fired ? 1 : 0, told ? 1 : 0);
    }
    if (told) {
      verify("a failed write");
      return;
    }
    const bool other = st.at(5) % 3 == 0;
    auto& pk = other ? *Q : *P;
    const std::size_t room = other ? qn : nq;
    const bool cut = st.at(5) / 3 % 4 == 0;
    if (cut) {
      const auto at = mix(st.at(4)) % full.size();
      disk::put(path, full.substr(0, at));
      c.count("fault.truncated-file");
    } else if (disk::content(path) != full) {
      c.fail(id + "/wide-write-error-hidden",
             "the file holds something else than the stream");
    }
    const auto rk = static_cast<disk::Kind>(st.at(6) % 7);
    disk::set({rk, mix(st.at(6)) % (full.size() + 1), st.at(6)});
    bool threw = false;
    std::string how;
    dd::vEdge rv{};
    dd::mEdge rm{};
    try {
      if (mat) {
        rm = pk.deserialize<dd::mNode>(path, bin);
      } else {
        rv = pk.deserialize<dd::vNode>(path, bin);
      }
    } catch (const std::exception& ex) {
      threw = true;
      how = ex.what();
    }
    const bool rf = disk::fired();
    if (rf) {
      c.count("fault.read");
    }
    disk::set({});
    if (disk::openFiles() != 0) {
      c.fail(id + "/wide-file-left-open", "a file was left open");
    }
    const bool healthy = !cut && !rf && n <= room;
    work++;
    c.ev("%s %s n=%zu %zu bytes kind %d/%d cut %d threw %d", mat ? "m" : "v",
         bin ? "binary" : "text", n, full.size(), static_cast<int>(kind),
         static_cast<int>(rk), cut ? 1 : 0, threw ? 1 : 0);
    c.cover(mix(full.size() / 16) ^ mix(n * 8 + (threw ? 1 : 0) + (bin ? 2 : 0)));
    if (healthy && threw) {
      c.fail(id + "/wide-spurious-read-error",
             "a completely stored %s of %zu qubits (%s) cannot be read: %s",
             mat ? "matrix" : "state", n, bin ? "binary" : "text", how.c_str());
    }
    if (!threw && rf && rk != disk::CLOSE_ERR) {
      c.fail(id + "/wide-read-error-hidden",
             "reading reported success although the disk failed");
    }
    if (healthy) {
      if (mat) {
        WM t = m;
        t.e = rm;
        pk.incRef(rm);
        t.what = "deserialized matrix";
        for (u64 r = 0; r < 3; r++) {
          Key col = randomKey(st.at(6) + r, n);
          for (const auto& o : m.ops) {
            for (const auto& [q, p] : o.controls) {
              if (mix(r + q) % 4 != 0) {
                col[q] = p ? '1' : '0';
              }
            }
          }
          for (const auto& [row, x] : column(m, col)) {
            if (!(std::abs(entry(rm, n, row, col) - entry(m.e, n, row, col)) <
                  1e-9)) {
              c.fail(id + "/wide-round-trip",
                     "a matrix on %zu qubits read back (%s) is off by %.3g", n,
                     bin ? "binary" : "text",
                     std::abs(entry(rm, n, row, col) -
                              entry(m.e, n, row, col)));
            }
          }
        }
        pk.decRef(rm);
      } else {
        pk.incRef(rv);
        const auto got = evalW(rv, n, "deserialized state");
        if (!(distS(got, v.d) < 1e-9)) {
          c.fail(id + "/wide-round-trip",
                 "a state on %zu qubits read back (%s) is off by %.3g", n,
                 bin ? "binary" : "text", distS(got, v.d));
        }
        pk.decRef(rv);
      }
    }
    verify("reading");
  }

  // ------------------------------------------------------------------ P15, P06
  std::vector<std::size_t> randomPerm(u64 r, std::size_t n, u64 few = 5) const {
    std::vector<std::size_t> o(n);
    for (std::size_t k = 0; k < n; k++) {
      o[k] = k;
    }
    if (r == 0) {
      return o;
    }
    // few or many transpositions
    const u64 t = r % 3 == 0 && few > 3 ? n : r % few;
    for (u64 k = 0; k < t; k++) {
      const u64 s = mix(r + k);
      std::swap(o[s % n], o[(s >> 20) % n]);
    }
    return o;
  }
  struct B {
    double p;
    std::string bits;
    SV v;
  };
  void circuit(const Step& st) {
    const bool sampling = is("P06");
    const u64 r = st.at(1);
    const std::size_t n = nq;
    qc::QuantumComputation q(n);
    // the diagram of a functionality grows exponentially with the number of
    // transpositions in its layouts
    const bool functional = !sampling && st.at(4) % 3 == 0;
    const auto in = randomPerm(st.at(2), n, functional ? 3 : 5);
    const auto out = randomPerm(st.at(3), n, functional ? 3 : 5);
    for (std::size_t k = 0; k < n; k++) {
      q.initialLayout[static_cast<qc::Qubit>(k)] =
          static_cast<qc::Qubit>(in[k]);
      q.outputPermutation[static_cast<qc::Qubit>(k)] =
          static_cast<qc::Qubit>(out[k]);
    }
    const std::size_t nc = sampling && st.at(4) % 4 != 0 ? 1 + st.at(5) % 90 : 0;
    std::size_t split = 0;
    if (nc > 0) {
      split = (st.at(5) >> 8) % nc;
      if (split > 0) {
        q.addClassicalRegister(split, "a");
      }
      q.addClassicalRegister(nc - split, "b");
    }
    std::vector<Ref> refs;
    const u64 len = 2 + st.at(0) % 10;
    // reference run along the way, so that the state stays sparse
    std::vector<B> bs{{1, std::string(nc, '0'), {{Key(n, '0'), 1}}}};
    Key start(n, '0');
    if (!sampling) {
      start = randomKey(r * 3 + 1, n);
      bs[0].v = {{start, 1}};
    }
    bool measured = false;
    bool dynamic = false;
    std::set<std::size_t> active;
    for (u64 k = 0; k < len; k++) {
      const u64 s = mix(r + 1000 * k);
      const u64 kind = nc > 0 ? s % 8 : 0;
      Ref ref;
      if (kind == 7) { // measure some qubits
        ref.kind = Ref::MEAS;
        const std::size_t w =
            1 + (s >> 8) % std::min<std::size_t>({n, nc, 12});
        const auto pq = randomPerm(3 * (s >> 12) + 3, n);
        const auto pb = randomPerm(3 * (s >> 22) + 3, nc);
        std::vector<qc::Qubit> t;
        std::vector<qc::Bit> b;
        for (std::size_t j = 0; j < w; j++) {
          const auto x = j < hot.size() && s % 3 != 0 ? hot[j] : pq[j];
          if (std::find(t.begin(), t.end(), x) != t.end()) {
            continue;
          }
          t.push_back(static_cast<qc::Qubit>(x));
          b.push_back(pb[j]);
          ref.targets.push_back(x);
          ref.bits.push_back(pb[j]);
        }
        q.measure(t, b);
        measured = true;
      } else if (kind == 6 && s % 3 == 0) {
        ref.kind = Ref::RESET;
        const auto x = hot[(s >> 8) % hot.size()];
        ref.targets.push_back(x);
        q.reset(static_cast<qc::Qubit>(x));
        dynamic = true;
      } else {
        const auto g = gate(s >> 3, s >> 7, s >> 17, s >> 29, n);
        ref = circ::refOf(g);
        ref.kind = Ref::U;
        if (functional) { // keeps the functionality's diagram small
          auto a = active;
          a.insert(ref.targets.begin(), ref.targets.end());
          for (const auto& [x, pol] : ref.controls) {
            a.insert(x);
          }
          if (a.size() > 8) {
            continue;
          }
          active = a;
        }
        if (kind == 5 && nc > 0) {
          ref.cond = true;
          ref.cstart = (s >> 33) % nc;
          ref.csize = 1;
          ref.cval = (s >> 5) % 2;
          q.emplace_back<qc::ClassicControlledOperation>(
              circ::opOf(g), static_cast<qc::Bit>(ref.cstart), ref.cval,
              qc::Eq);
          dynamic = true;
        } else {
          q.emplace_back(circ::opOf(g));
          dynamic = dynamic || measured;
        }
      }
      // advance the reference
      std::vector<B> nb;
      std::size_t total = 0;
      for (const auto& b : bs) {
        if (ref.kind == Ref::U) {
          B x = b;
          if (!ref.cond ||
              (b.bits[ref.cstart] == '1') == (ref.cval == 1)) {
            x.v = applyS(ref, b.v, &in);
          }
          total += x.v.size();
          nb.push_back(std::move(x));
          continue;
        }
        std::vector<B> cur{b};
        for (std::size_t t = 0; t < ref.targets.size(); t++) {
          std::vector<B> nx;
          const auto lv = in[ref.targets[t]];
          for (const auto& y : cur) {
            for (int o = 0; o < 2; o++) {
              B z{0, y.bits, {}};
              double p = 0;
              for (const auto& [kk, x] : y.v) {
                if ((kk[lv] == '1') == (o == 1)) {
                  p += std::norm(x);
                }
              }
              if (p * y.p < 1e-13) {
                continue;
              }
              for (const auto& [kk, x] : y.v) {
                if ((kk[lv] == '1') == (o == 1)) {
                  Key k2 = kk;
                  if (ref.kind == Ref::RESET) {
                    k2[lv] = '0';
                  }
                  z.v[k2] = x / std::sqrt(p);
                }
              }
              z.p = y.p * p;
              if (ref.kind == Ref::MEAS) {
                z.bits[ref.bits[t]] = o == 1 ? '1' : '0';
              }
              nx.push_back(std::move(z));
            }
          }
          cur = std::move(nx);
        }
        for (auto& y : cur) {
          total += y.v.size();
          nb.push_back(std::move(y));
        }
      }
      if (total > CAP) { // too dense: undo the operation and stop
        q.erase(q.end() - 1);
        if (ref.kind == Ref::MEAS) {
          q.initializeIOMapping();
          for (std::size_t kk = 0; kk < n; kk++) {
            q.outputPermutation[static_cast<qc::Qubit>(kk)] =
                static_cast<qc::Qubit>(out[kk]);
          }
        }
        break;
      }
      bs = std::move(nb);
      refs.push_back(ref);
    }
    work++;
    if (sampling) {
      sample(q, bs, in, out, nc, measured || dynamic, dynamic, st.at(6), n);
      return;
    }
    auto move = [&](const SV& v) {
      SV o;
      for (const auto& [k, x] : v) {
        Key k2(n, '0');
        for (std::size_t p = 0; p < n; p++) {
          k2[out[p]] = k[in[p]];
        }
        o[k2] = x;
      }
      return o;
    };
    if (st.at(4) % 3 != 0) {
      std::vector<bool> b(n);
      for (std::size_t k = 0; k < n; k++) {
        b[k] = start[k] == '1';
      }
      const auto x = P->makeBasisState(n, b);
      const auto e = dd::simulate(q, x, *P);
      keep(e, n, judge(e, n, move(bs[0].v), "simulate"), "simulation result");
    } else {
      const bool rec = st.at(4) / 3 % 2 == 0;
      const auto e = rec ? dd::buildFunctionalityRecursive(q, *P)
                         : dd::buildFunctionality(q, *P);
      const char* nm =
          rec ? "buildFunctionalityRecursive" : "buildFunctionality";
      for (u64 t = 0; t < 3; t++) {
        const Key k = t == 0 ? start : randomKey(r * 7 + t, n);
        SV v{{k, 1}};
        bool ok = true;
        for (const auto& f : refs) {
          v = applyS(f, v, &in);
          ok = ok && v.size() <= 4 * CAP;
          if (!ok) {
            break;
          }
        }
        if (!ok) {
          continue;
        }
        std::vector<bool> b(n);
        for (std::size_t j = 0; j < n; j++) {
          b[j] = k[j] == '1';
        }
        const auto x = P->makeBasisState(n, b);
        const auto y = P->multiply(e, x);
        (void)judge(y, n, move(v), nm);
        P->decRef(x);
      }
      P->decRef(e);
    }
    only("building or simulating a circuit");
    verify("building or simulating a circuit");
  }
  void sample(qc::QuantumComputation& q, const std::vector<B>& bs,
              const std::vector<std::size_t>& in,
              const std::vector<std::size_t>& out, std::size_t nc, bool bits,
              bool dynamic, u64 how, std::size_t n) {
    std::map<std::string, double> dist;
    if (bits) {
      for (const auto& b : bs) {
        dist[std::string(b.bits.rbegin(), b.bits.rend())] += b.p;
      }
    } else {
      for (const auto& [k, x] : bs[0].v) {
        std::string o(n, '0');
        for (std::size_t p = 0; p < n; p++) {
          o[n - 1 - out[p]] = k[in[p]];
        }
        dist[o] += std::norm(x);
      }
    }
    const std::size_t shots = dynamic ? 30 : 200;
    const auto h = dd::sample(q, shots, 1 + how % 1000);
    const auto h2 =
        how % 3 == 0 ? dd::sample(q, shots, 1 + how % 1000) : h;
    if (h != h2) {
      c.fail(id + "/wide-seed", "the same seed gave two histograms");
    }
    std::size_t sum = 0;
    for (const auto& [k, m] : h) {
      sum += m;
      const auto it = dist.find(k);
      if (k.size() != (bits ? nc : n)) {
        c.fail(id + "/wide-layout",
               "bit string of %zu characters where %zu are expected", k.size(),
               bits ? nc : n);
      }
      if (m > 0 && (it == dist.end() || it->second < 1e-12)) {
        c.fail(id + "/wide-impossible",
               "bit string %s was returned %zu times but has probability zero",
               k.c_str(), m);
      }
    }
    if (sum != shots) {
      c.fail(id + "/wide-shots", "%zu shots were requested, %zu returned",
             shots, sum);
    }
    const double s = static_cast<double>(shots);
    for (const auto& [k, p] : dist) {
      const auto it = h.find(k);
      const double m = it == h.end() ? 0 : static_cast<double>(it->second);
      const double var = s * std::min(p, 1.) * std::max(0., 1 - p);
      if (std::abs(m - s * p) > 8 * std::sqrt(var) + 14) {
        c.fail(id + "/wide-frequency",
               "bit string %s has probability %.4f but was returned %.0f times "
               "in %zu shots",
               k.c_str(), p, m, shots);
      }
    }
    c.count(dynamic ? "wide-sample-dynamic" : "wide-sample");
    c.ev("sample n=%zu nc=%zu %zu outcomes", n, nc, h.size());
    for (const auto& [k, m] : h) {
      c.feed(k.data(), k.size());
      c.feed(static_cast<u64>(m));
    }
    c.cover(mix(n * 97 + nc) ^ mix(h.size() * 31 + q.size()));
  }

  void run() {
    disk::reset();
    const std::size_t n0 = 9 + plan.knob("nq0", 0) % 142;
    qn = 9 + plan.knob("nq1", 0) % 142;
    if (plan.knob("grow", 0) != 0) { // small first, then as wide
      open(1 + plan.knob("grow", 0) % 9);
      P->resize(n0);
      nq = n0;
    } else {
      open(n0);
    }
    baseNums = P->cUniqueTable.getStats().numEntries;
    Q = std::make_unique<dd::Package>(qn, configFrom(plan.knob("cfg1", 1)));
    std::set<std::size_t> hs{0, nq - 1};
    const std::size_t edges[] = {7, 8, 9, 10, 11, 15, 16, 17, 31, 32, 33, 62, 63, 64, 65, 99, 100, 127, 128};
    for (u64 k = 0; k < 14; k++) {
      const u64 s = mix(plan.knob("hot", 0) + k);
      const auto x = s % 2 == 0 ? edges[(s >> 8) % std::size(edges)]
                                : (s >> 8) % nq;
      if (x < nq && hs.size() < 9) {
        hs.insert(x);
      }
    }
    hot.assign(hs.begin(), hs.end());
    for (const auto& st : plan.steps) {
      if (st.op == "knob") {
        continue;
      }
      c.steps++;
      if (st.op == "wnew") {
        newState(st);
      } else if (st.op == "wgate") {
        applyGate(st);
      } else if (st.op == "wmat") {
        newMatrix(st);
      } else if (st.op == "wmv") {
        applyMatrix(st);
      } else if (st.op == "wcomb") {
        combine(st);
      } else if (st.op == "wread") {
        read(st);
      } else if (st.op == "wred") {
        reduce(st);
      } else if (st.op == "wredv") {
        reduceV(st);
      } else if (st.op == "wagain") {
        again(st);
      } else if (st.op == "wmeas") {
        measure(st);
      } else if (st.op == "wfile") {
        store(st);
      } else if (st.op == "wcirc") {
        circuit(st);
      } else if (st.op == "gc") {
        only("a step");
        verify("a collection");
      } else if (st.op == "drop") {
        dropW(st.at(0) % 4);
      }
      dropW(6);
    }
    verify("the run");
    dropW(0);
    only("releasing everything");
    c.count("wide");
    c.nontrivial = work > 2;
  }
};
} // namespace

namespace wide {
void run(const Plan& p, Ctx& c, const char* prop) { Wide(c, p, prop).run(); }

Plan gen(u64 seed, const char* prop) {
  Rng r(seed);
  Plan p;
  p.prop = prop;
  const std::string id = prop;
  auto knob = [&](const char* n, u64 v) { p.add("knob", {v}, n); };
  knob("wide", 1);
  knob("layout", r.next() >> 32);
  knob("cfg0", 1 + (r.next() >> 40));
  knob("cfg1", 1 + (r.next() >> 40));
  knob("gclim0", r.below(3) == 0 ? 0 : r.next() >> 40);
  const u64 w = r.below(4); // 9.., around 32, around 64, any
  const u64 nq = w == 0 ? r.below(8) : w == 1 ? 20 + r.below(8)
                 : w == 2 ? 52 + r.below(8) : r.below(142);
  knob("nq0", nq);
  knob("nq1", r.chance(0.7) ? nq + (nq < 140 ? r.below(2) : 0) : r.below(142));
  knob("grow", r.chance(0.2) ? 1 + r.below(20) : 0);
  knob("hot", r.next() >> 30);
  std::vector<std::pair<const char*, double>> ws = {
      {"wnew", 1.2}, {"wgate", 5}, {"wmat", .8}, {"gc", .5}, {"drop", .3}};
  if (id == "P01") {
    ws.insert(ws.end(), {{"wmv", 1.5}, {"wcomb", 2}, {"wread", 1.5},
                         {"wred", 1.2}, {"wredv", .6}});
  } else if (id == "P02") {
    ws.insert(ws.end(), {{"wmv", 1}, {"wcomb", 1.5}, {"wredv", .5},
                         {"wred", .7}, {"gc", 2}});
  } else if (id == "P03") {
    ws.insert(ws.end(), {{"wagain", 4}, {"wcomb", 2}, {"wmv", .7}});
  } else if (id == "P05") {
    ws.insert(ws.end(), {{"wmeas", 5}});
  } else if (id == "P09") {
    ws.insert(ws.end(), {{"wfile", 5}});
  } else {
    ws = {{"wcirc", 3}, {"gc", .3}, {"drop", .3}};
  }
  double total = 0;
  for (auto& [k, x] : ws) {
    x *= r.chance(0.2) ? 0.2 : r.chance(0.2) ? 3 : 1;
    total += x;
  }
  const u64 n = id == "P15" || id == "P06" ? 1 + r.below(5) : 8 + r.below(22);
  p.add("wnew", {r.below(6), r.next() >> 30, 1});
  for (u64 i = 0; i < n; i++) {
    double x = r.unit() * total;
    std::size_t k = 0;
    while (k + 1 < ws.size() && x >= ws[k].second) {
      x -= ws[k].second;
      k++;
    }
    p.add(ws[k].first,
          {r.below(64), r.next() >> 30, r.next() >> 30, r.next() >> 30,
           r.next() >> 30, r.next() >> 30, r.next() >> 30});
  }
  return p;
}
} // namespace wide
